package sto

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/harness/h"
	"verif/harness/srv"
)

// traces tell whose goroutine it is.
var traces = map[string][]string{
	"redis":           {"storage/store/redis.", "go-redis/redis"},
	"nsq":             {"storage/store/nsq.", "nsqio/go-nsq"},
	"postgresql":      {"storage/store/postgresql.", "lib/pq", "database/sql"},
	"tarantool_queue": {"storage/store/tarantool_queue.", "go-tarantool"},
	"nats":            {"storage/store/nats.", "nats-io/nats"},
	"rabbitmq":        {"storage/store/rabbitmq.", "streadway/amqp", "rabbitmq/amqp"},
}

// goroutinesOf counts the goroutines of each connector, with an example.
func goroutinesOf() (map[string]int, map[string]string) {
	b := make([]byte, 1<<20)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	n, ex := map[string]int{}, map[string]map[string]int{}
	for _, g := range strings.Split(string(b), "\n\n") {
		for kind, ts := range traces {
			for _, t := range ts {
				if strings.Contains(g, t) {
					n[kind]++
					if ex[kind] == nil {
						ex[kind] = map[string]int{}
					}
					_, g, _ := strings.Cut(g, "\n")
					ex[kind][g]++
					break
				}
			}
		}
	}
	most := map[string]string{}
	for kind, m := range ex {
		k := 0
		for g, c := range m {
			if c > k {
				k, most[kind] = c, fmt.Sprintf("%d times %s", c, g)
			}
		}
	}
	return n, most
}

// user is a connector at work.
type user struct {
	kind string
	s    *setup
	st   interface {
		Save(message) error
		Close() error
	}
	mu    sync.Mutex
	fault string
	half  bool // new connections fail halfway
	saved int
	base  map[string]int // what it held after the first records
	gone  bool
	pause time.Duration // between saves
}

func (u *user) set(f string) { u.mu.Lock(); u.fault = f; u.mu.Unlock() }

const savers = 8

// save lets several savers save n records at the same time.
func (u *user) save(r *h.Run, n int) (failed int) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for a := 0; a < savers; a++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n/savers && !u.gone; k++ {
				m := &note{fmt.Sprintf("record %d %d %s", a, k, strings.Repeat("x", 200))}
				o := call(time.Minute, func() error { return u.st.Save(m) })
				mu.Lock()
				if !judge(r, u.kind+" Save", o, u.s.String()) {
					u.gone = true
				}
				if o.err != nil {
					failed++
				} else {
					u.saved++
				}
				mu.Unlock()
				time.Sleep(u.pause)
			}
		}()
	}
	wg.Wait()
	return
}

// T05 - delivering records leaves nothing behind.
func T05(r *h.Run) {
	r.Rule = "one evaluation per connector and measurement; distinct: connector, configuration and phase; nontrivial always"
	rng := r.Rng("leftovers")
	for round := 0; round < r.Scale(2, 8); round++ {
		leftovers(r, rng, round)
	}
}

func leftovers(r *h.Run, rng *rand.Rand, round int) {
	var us []*user
	defer func() {
		for _, u := range us {
			call(10*time.Second, u.st.Close)
			u.s.b.Down()
		}
	}()
	for _, kind := range Kinds {
		u := &user{kind: kind}
		s, err := newSetup(kind, rng, func(stage string, n int) string {
			u.mu.Lock()
			defer u.mu.Unlock()
			switch stage {
			case "publish", "put", "execute":
				return u.fault
			case lastStage[u.kind]:
				if u.half {
					return "error"
				}
			}
			return ""
		})
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		s.b.Forget = true
		if kind == "tarantool_queue" {
			s.cfg["reconnect"], s.cfg["max_recons"], s.cfg["timeout"] = "1", "30", "5"
		}
		if kind == "nats" {
			s.cfg["servers"] = "nats://" + s.b.Addr
		}
		u.s = s
		st := newStore(kind)
		u.st = st
		us = append(us, u)
		if o := call(time.Minute, func() error { return st.Init(s.cfg) }); !judge(r, kind+" Init", o, s.String()) || o.err != nil {
			if o.err != nil {
				r.Violate(kind+" Init", "fails with a broker that works: "+o.err.Error(), s.String())
			}
			return
		}
	}
	each := func(f func(*user)) {
		var wg sync.WaitGroup
		for _, u := range us {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r.Guard("leftovers "+u.kind, func() any { return u.s.String() }, func() { f(u) })
			}()
		}
		wg.Wait()
	}
	heap := func() float64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return float64(m.HeapAlloc) / (1 << 20)
	}
	// measure compares what each connector holds with what it held at first
	measure := func(phase string, slack int, after func(*user) string) bool {
		good := true
		for _, u := range us {
			msg, ex := "", map[string]string{}
			var last map[string]int
			// what has been used may take a moment to be released
			eventually(12*time.Second, func() bool {
				n, e := goroutinesOf()
				ex = e
				held := u.s.b.Held()
				held["goroutines"] = n[u.kind]
				last, msg = held, ""
				for k, v := range held {
					// streadway/amqp may lose a goroutine when a connection breaks
					if v > u.base[k]+slack && (k != "goroutines" || v > savers) {
						msg += fmt.Sprintf("%d %s instead of %d; ", v, k, u.base[k])
					}
				}
				return msg == ""
			})
			if u.base == nil {
				u.base = last
				continue
			}
			r.Count("measurements of "+u.kind, 1)
			r.Eval(fmt.Sprint(round, u.s, phase))
			if round == 0 {
				r.Sample(map[string]any{"storage": u.kind, "phase": phase, "holds": last, "held after the first records": u.base})
			}
			if msg != "" {
				if srv.Starved(5 * time.Second) {
					r.Inconclusive("%s: %s but this machine did not get to run for seconds", u.kind, msg)
					return false
				}
				good = false
				r.Violate(u.kind+" keeps things: "+phase, fmt.Sprintf("%s: %s%s. %s", phase, msg, after(u), ex[u.kind]), u.s.String())
			}
		}
		return good
	}
	n := r.Scale(2400, 24000)
	each(func(u *user) { u.save(r, 400) })
	time.Sleep(50 * time.Millisecond)
	for _, u := range us { // the savers may have left idle connections, one each
		g, _ := goroutinesOf()
		u.base = u.s.b.Held()
		u.base["goroutines"] = g[u.kind]
	}
	const slack = 3 * savers // goroutines and connections that come and go with the savers
	before := heap()
	each(func(u *user) { u.save(r, n) })
	if !measure("records delivered", slack, func(u *user) string { return fmt.Sprintf("%d records saved with success", u.saved) }) {
		return
	}
	if now := heap(); now > before+4 {
		r.Violate("memory grows", fmt.Sprintf("the heap has grown from %.1f MB to %.1f MB over %d records of each connector", before, now, n), "records delivered")
		return
	}
	r.Count("records delivered", int64(n*len(us)))
	for _, fault := range []string{"error", "after", "close"} {
		failed := map[string]int{}
		var mu sync.Mutex
		each(func(u *user) {
			if fault != "error" && u.kind == "nats" { // it waits before it connects again
				return
			}
			u.set(fault)
			many := 160
			if fault != "error" && (u.kind == "tarantool_queue" || u.kind == "nsq") {
				many = 16
			}
			if !Confirms[u.kind] { // it takes a moment to learn of a failure
				many = 640
				u.pause = 2 * time.Millisecond
			}
			k := u.save(r, many)
			u.set("")
			u.pause = 0
			mu.Lock()
			failed[u.kind] = k
			mu.Unlock()
			r.Count("failed saves", int64(k))
		})
		back(r, us, each)
		if r.Violated() || !measure("saves failed: "+fault, slack, func(u *user) string { return fmt.Sprintf("%d saves have failed", failed[u.kind]) }) {
			return
		}
	}
	// connections that cannot be set up again, but fail halfway
	each(func(u *user) {
		if u.kind == "nats" || u.kind == "redis" && u.s.cfg["db"] == "" {
			return // it gives up for good; it has no stage to fail at
		}
		u.mu.Lock()
		u.fault, u.half = "close", true
		u.mu.Unlock()
		k := 0
		for end := time.Now().Add(1200 * time.Millisecond); time.Now().Before(end); time.Sleep(time.Millisecond) {
			k += u.save(r, savers)
		}
		u.mu.Lock()
		u.fault, u.half = "", false
		u.mu.Unlock()
		r.Count("failed saves with connections failing halfway", int64(k))
	})
	back(r, us, each)
	if r.Violated() || !measure("connections fail halfway", slack, func(u *user) string { return "new connections failed halfway for a while" }) {
		return
	}
	outages := r.Scale(3, 12)
	each(func(u *user) {
		for k := 0; k < outages; k++ {
			u.s.b.Down()
			u.save(r, savers*2)
			if err := u.s.b.Up(); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			deliver(r, u)
			r.Count("outages of "+u.kind, 1)
		}
	})
	if r.Violated() || !measure("outages", slack, func(u *user) string { return fmt.Sprintf("%d outages", outages) }) {
		return
	}
	// nothing at all is left after Close
	for _, u := range us {
		o := call(20*time.Second, u.st.Close)
		judge(r, u.kind+" Close", o, u.s.String())
		u.base = map[string]int{}
	}
	measure("closed", 0, func(u *user) string { return "after Close" })
}

// deliver saves until the connector delivers again.
func deliver(r *h.Run, u *user) {
	for t := time.Now(); !u.gone; time.Sleep(10 * time.Millisecond) {
		n := u.s.b.Taken()
		o := call(time.Minute, func() error { return u.st.Save(&note{"again"}) })
		if !judge(r, u.kind+" Save", o, u.s.String()) {
			u.gone = true
			return
		}
		if o.err == nil && eventually(time.Second, func() bool { return u.s.b.Taken() > n }) {
			return
		}
		if time.Since(t) > 40*time.Second {
			r.Inconclusive("%s does not deliver again after an outage, see T04", u.kind)
			u.gone = true
			return
		}
	}
}

func back(r *h.Run, us []*user, each func(func(*user))) { each(func(u *user) { deliver(r, u) }) }
