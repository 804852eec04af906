package sto

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"verif/harness/h"
	"verif/harness/srv"
)

// lastStage is where setting up a connection ends.
var lastStage = map[string]string{"redis": "select", "nsq": "identify", "postgresql": "startup", "tarantool_queue": "schema", "nats": "ping", "rabbitmq": "channel"}

// T04 - a connector delivers again once its broker is back.
func T04(r *h.Run) {
	r.Rule = "one evaluation per outage survived; distinct: connector, kind and length of the outage, number of savers, saves tried meanwhile; nontrivial always"
	// "handshake": the broker takes connections and drops them as soon as they are set up
	ways := []string{"restart", "disconnect", "reset", "error", "fatal", "refusing", "handshake"}
	final := lastStage
	const recovery = 30 * time.Second // the slowest client tries anew every two seconds
	var lmu sync.Mutex
	longest := map[string]time.Duration{}
	defer func() {
		for k, d := range longest {
			r.Count("longest recovery of "+k+" (ms)", d.Milliseconds())
		}
	}()
	r.Parallel("outage", r.Scale(168, 2100), 28, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		kind, way := Kinds[i%len(Kinds)], ways[i/len(Kinds)%len(ways)]
		var mu sync.Mutex
		fault := ""
		s, err := newSetup(kind, rng, func(stage string, n int) string {
			mu.Lock()
			defer mu.Unlock()
			switch {
			case fault == "":
			case stage == "publish", stage == "put", stage == "execute":
				return fault
			case way == "handshake" && (stage == final[kind] || stage == "password"):
				return "after"
			case stage == "connect" && way == "refusing":
				return "close"
			}
			return ""
		})
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer func() { s.b.Down() }()
		if kind == "tarantool_queue" { // its limits allow for the outage
			s.cfg["reconnect"], s.cfg["max_recons"], s.cfg["timeout"] = "1", "10", "5"
		}
		if kind == "nats" { // the others never come back
			s.cfg["servers"] = "nats://" + s.b.Addr
		}
		if kind == "redis" && way == "handshake" && s.cfg["db"] == "" {
			s.cfg["db"], s.via = "3", "db 3"
		}
		outage := time.Duration(rng.Intn(1500)) * time.Millisecond
		savers := 1 + rng.Intn(4)
		rep := map[string]any{"storage": kind, "configuration": s.cfg, "outage": way, "length": outage.String(), "savers": savers}
		st := newStore(kind)
		if o := call(time.Minute, func() error { return st.Init(s.cfg) }); !judge(r, kind+" Init", o, rep) || o.err != nil {
			if o.err != nil {
				r.Violate(kind+" Init", "fails with a broker that works: "+o.err.Error(), rep)
			}
			return
		}
		defer call(10*time.Second, st.Close)
		arrived := func(body string) bool {
			for _, m := range s.b.Msgs() {
				if m.Body == body && m.Dest == s.dest && m.Via == s.via {
					return true
				}
			}
			return false
		}
		// save until it is accepted; it must have arrived then
		id := 0
		accepted := func(limit time.Duration, times int) bool {
			good := 0
			var last outcome
			for t := time.Now(); good < times; {
				if time.Since(t) > limit && srv.Starved(5*time.Second) {
					r.Inconclusive("%s: no recovery, but this machine did not get to run for seconds", kind)
					return false
				}
				if time.Since(t) > limit {
					r.Violate(kind+" does not recover", fmt.Sprintf("%v after the broker is back (%s, %v): %v", limit, way, outage, last), rep)
					return false
				}
				id++
				m := &note{fmt.Sprintf("record %d of %d", id, i)}
				last = call(time.Minute, func() error { return st.Save(m) })
				if !judge(r, kind+" Save", last, rep) {
					return false
				}
				if last.err != nil {
					good = 0
					time.Sleep(20 * time.Millisecond)
					continue
				}
				if !eventually(map[bool]time.Duration{true: time.Second, false: 5 * time.Second}[Confirms[kind]], func() bool { return arrived(m.text) }) {
					if Confirms[kind] {
						r.Violate(kind+" claims success", "a record saved with success did not arrive", rep)
						return false
					}
					good = 0 // lost on its way
					continue
				}
				good++
			}
			return true
		}
		if !accepted(30*time.Second, 2) {
			return
		}
		switch way {
		case "restart", "refusing":
			s.b.Down()
		}
		mu.Lock()
		switch way {
		case "disconnect", "refusing":
			fault = "close"
		case "handshake":
			fault = "close"
			// the client learns of it before it believes itself connected
			delay := "VERIF_NSQ_DELAY_" + s.b.Addr
			os.Setenv(delay, "5ms")
			defer os.Unsetenv(delay)
		case "reset", "error", "fatal":
			fault = way
		}
		mu.Unlock()
		if way == "refusing" {
			if err := s.b.Up(); err != nil {
				r.Inconclusive("%v", err)
				return
			}
		}
		end := time.Now().Add(outage)
		var wg sync.WaitGroup
		for a := 0; a < savers; a++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; time.Now().Before(end); k++ {
					m := &note{fmt.Sprintf("meanwhile %d %d %d", i, a, k)}
					o := call(time.Minute, func() error { return st.Save(m) })
					if !judge(r, kind+" Save", o, rep) {
						return
					}
					if o.err != nil {
						r.Count("failures during outages", 1)
					} else if Confirms[kind] {
						if !eventually(time.Second, func() bool { return arrived(m.text) }) {
							r.Violate(kind+" claims success", "a record saved with success during the outage did not arrive", rep)
							return
						}
						r.Count("successes during outages, checked", 1)
					}
					time.Sleep(15 * time.Millisecond)
				}
			}()
		}
		time.Sleep(time.Until(end))
		if way == "restart" {
			if err := s.b.Up(); err != nil {
				r.Inconclusive("%v", err)
				wg.Wait()
				return
			}
		}
		mu.Lock()
		fault = ""
		mu.Unlock()
		os.Unsetenv("VERIF_NSQ_DELAY_" + s.b.Addr)
		wg.Wait()
		back := time.Now()
		if !accepted(recovery, 3) {
			return
		}
		lmu.Lock()
		longest[kind] = max(longest[kind], time.Since(back))
		lmu.Unlock()
		r.Count("outages of "+kind, 1)
		r.Eval(fmt.Sprint(kind, way, outage, savers))
		if i < 6 {
			r.Sample(rep)
		}
	})
}
