package sto

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/harness/h"
)

// stages of the conversations at which a broker can fail, in Init or in Save.
var initStages = map[string][]string{
	"postgresql":      {"connect", "startup", "ping"},
	"tarantool_queue": {"connect", "greeting", "auth", "schema"},
	"nats":            {"connect", "info", "ping"},
	"rabbitmq":        {"connect", "start", "tune", "open", "channel"},
}
var saveStages = map[string][]string{
	"redis":           {"connect", "auth", "select", "publish"},
	"nsq":             {"connect", "identify", "publish"},
	"postgresql":      {"connect", "startup", "parse", "bind", "execute", "sync"},
	"tarantool_queue": {"put", "greeting", "auth"},
	"nats":            {"publish"},
	"rabbitmq":        {"publish"},
}

var faults = []string{"error", "fatal", "close", "reset", "half"}

// T02 - connectors report failures.
func T02(r *h.Run) {
	r.Rule = "one evaluation per Init or Save judged; distinct: connector, stage, fault, which occurrences of the stage it hits, outcome; nontrivial if something fails or is missing"
	initFaults(r)
	saveFaults(r)
	badConfigs(r)
	badRecords(r)
}

// always contacts: an Init whose conversation never gets past the stage must fail.
func initFaults(r *h.Run) {
	type cas struct{ kind, stage, fault string }
	var cases []cas
	for _, k := range Kinds {
		for _, st := range initStages[k] {
			for _, f := range faults {
				if st == "connect" && f != "close" && f != "reset" {
					continue
				}
				cases = append(cases, cas{k, st, f})
			}
		}
	}
	rounds := r.Scale(3, 40)
	r.Parallel("init", len(cases)*rounds, 24, func(i int, rng *rand.Rand) {
		c := cases[i%len(cases)]
		s, err := newSetup(c.kind, rng, nil)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer s.b.Down()
		if c.stage == "auth" && s.b.User == "" {
			s.b.User, s.b.Pass = "u", "p"
			s.cfg["user"], s.cfg["password"] = "u", "p"
		}
		if s.cfg["timeout"] != "" {
			s.cfg["timeout"] = "2"
		}
		s.b.Plan = func(stage string, n int) string {
			if stage == c.stage {
				return c.fault
			}
			return ""
		}
		rep := map[string]any{"storage": c.kind, "configuration": s.cfg, "stage": c.stage, "fault": c.fault}
		o := call(time.Minute, func() error { return newStore(c.kind).Init(s.cfg) })
		if !judge(r, c.kind+" Init", o, rep) {
			return
		}
		if s.b.Seen(c.stage) == 0 {
			r.Inconclusive("%s never got to %s (%v) %v", c.kind, c.stage, o, s.b.Bad())
			return
		}
		if o.err == nil {
			r.Violate(c.kind+" Init", fmt.Sprintf("claims success although the broker failed at %s with %s", c.stage, c.fault), rep)
		}
		r.Eval(fmt.Sprint("init ", c))
		r.Count("failing initialisations", 1)
	})
}

func saveFaults(r *h.Run) {
	type cas struct{ kind, stage, fault, when string }
	var cases []cas
	for _, k := range Kinds {
		for _, st := range saveStages[k] {
			for _, f := range append([]string{"", "slow", "after"}, faults...) {
				if st == "connect" && f != "close" && f != "reset" {
					continue
				}
				for _, w := range []string{"always", "first", "second", "mixed", "down"} {
					if w == "down" && f != "close" {
						continue
					}
					cases = append(cases, cas{k, st, f, w})
				}
			}
		}
	}
	// slow to time out
	for i := 0; i < 2; i++ {
		cases = append(cases, cas{"redis", "publish", "silent", "always"}, cas{"redis", "publish", "silent", "first"},
			cas{"tarantool_queue", "put", "silent", "always"}, cas{"tarantool_queue", "put", "silent", "second"})
	}
	rounds := r.Scale(3, 60)
	r.Parallel("save", len(cases)*rounds, 32, func(i int, rng *rand.Rand) {
		if r.Violated() && i > len(cases) {
			return
		}
		c := cases[i%len(cases)]
		s, err := newSetup(c.kind, rng, nil)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer func() {
			if !s.b.down {
				s.b.Down()
			}
		}()
		switch c.kind {
		case "redis":
			if c.stage == "auth" && s.b.Pass == "" {
				s.b.Pass = "p"
				s.cfg["password"] = "p"
			}
			if c.stage == "select" {
				s.cfg["db"] = "7"
			}
		case "tarantool_queue":
			s.cfg["timeout"] = "2"
			if c.stage == "auth" && s.b.User == "" {
				s.b.User, s.b.Pass = "u", "p"
				s.cfg["user"], s.cfg["password"] = "u", "p"
			}
		}
		rep := map[string]any{"storage": c.kind, "configuration": s.cfg, "stage": c.stage, "fault": c.fault, "hits": c.when}
		st := newStore(c.kind)
		if o := call(time.Minute, func() error { return st.Init(s.cfg) }); !judge(r, c.kind+" Init", o, rep) {
			return
		} else if o.err != nil {
			r.Violate(c.kind+" Init", "fails with a broker that works: "+o.err.Error(), rep)
			return
		}
		defer call(10*time.Second, st.Close)
		odd := rng.Intn(2)
		s.b.mu.Lock()
		base := s.b.count[c.stage]
		s.b.Plan = func(stage string, n int) string {
			n -= base
			if stage == c.stage && (c.when == "always" || c.when == "first" && n == 0 || c.when == "second" && n == 1 || c.when == "mixed" && n%2 == odd) {
				return c.fault
			}
			// make the clients connect anew now and then
			if c.stage != "publish" && c.stage != "put" && (stage == "publish" || stage == "put" || stage == "sync") && n == 0 {
				return "close"
			}
			return ""
		}
		s.b.mu.Unlock()
		if c.when == "down" {
			s.b.Down()
		}
		var wg sync.WaitGroup
		group := 1
		if rng.Intn(2) == 0 {
			group = 4
		}
		n := 5
		if c.fault == "silent" {
			n, group = 2, 2
		}
		sem := make(chan bool, group)
		for k := 0; k < n; k++ {
			rec := record(rng, uint32(k))
			if !Confirms[c.kind] && k > 0 {
				wg.Wait()
				time.Sleep(400 * time.Millisecond) // let the client notice
			}
			wg.Add(1)
			sem <- true
			go func() {
				defer func() { <-sem; wg.Done() }()
				body, _ := rec.ToBytes()
				o := call(90*time.Second, func() error { return st.Save(rec) })
				if !judge(r, c.kind+" Save", o, rep) {
					return
				}
				find := func() (got, confirmed bool) {
					for _, m := range s.b.Msgs() {
						if m.Body == string(body) && m.Dest == s.dest {
							got, confirmed = true, confirmed || m.Confirmed
						}
					}
					return
				}
				switch {
				case o.err != nil:
					r.Count("failures reported by "+c.kind, 1)
				case Confirms[c.kind]:
					r.Count("successes confirmed by "+c.kind, 1)
					if _, ok := find(); !ok {
						r.Violate(c.kind+" claims success", fmt.Sprintf("Save reports success but the broker has not confirmed the record (fails at %s with %q, %s)", c.stage, c.fault, c.when), rep)
					}
				case c.kind == "rabbitmq" && k > 0:
					if !eventually(10*time.Second, func() bool { got, _ := find(); return got }) {
						r.Violate(c.kind+" claims success", fmt.Sprintf("Save on a connection known to be gone reports success but nothing arrives (fails at %s with %q, %s)", c.stage, c.fault, c.when), rep)
					}
				}
				r.Eval(fmt.Sprint(c, " ", k, o.err != nil))
				r.Count("saves judged", 1)
			}()
		}
		wg.Wait()
		if i%97 == 0 {
			r.Sample(rep)
		}
	})
}

func badConfigs(r *h.Run) {
	rng := r.Rng("configs")
	refused := func(kind, what string, cfg map[string]string) {
		rep := map[string]any{"storage": kind, "configuration": cfg}
		o := call(time.Minute, func() error { return newStore(kind).Init(cfg) })
		if !judge(r, kind+" Init", o, rep) {
			return
		}
		if o.err == nil {
			r.Violate(kind+" Init", "accepts "+what, rep)
		}
		r.Eval("config " + kind + what)
		r.Count("configurations refused", 1)
	}
	// what Init cannot tell, Save must
	unusable := func(kind, what string, cfg map[string]string) {
		rep := map[string]any{"storage": kind, "configuration": cfg}
		st := newStore(kind)
		o := call(time.Minute, func() error { return st.Init(cfg) })
		if !judge(r, kind+" Init", o, rep) {
			return
		}
		if o.err == nil {
			for i := 0; i < 2; i++ {
				o = call(time.Minute, func() error { return st.Save(record(rng, 1)) })
				if !judge(r, kind+" Save", o, rep) {
					return
				}
				if o.err == nil {
					r.Violate(kind+" claims success", "Save reports success with "+what, rep)
				}
			}
			call(10*time.Second, st.Close)
		}
		r.Eval("config " + kind + what)
		r.Count("configurations refused", 1)
	}
	with := func(cfg map[string]string, k, v string) map[string]string {
		c := map[string]string{}
		for a, b := range cfg {
			c[a] = b
		}
		c[k] = v
		if v == "\x00" {
			delete(c, k)
		}
		return c
	}
	for i := 0; i < r.Scale(3, 12); i++ {
		for _, kind := range Kinds {
			refused(kind, "no configuration", nil)
			if kind == "nsq" {
				unusable(kind, "an empty configuration", map[string]string{})
			} else {
				refused(kind, "an empty configuration", map[string]string{})
			}
			s, err := newSetup(kind, rng, nil)
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			host, port := "host", "port"
			closed := closedAddr()
			switch kind {
			case "redis":
				refused(kind, "no server", with(s.cfg, "server", "\x00"))
				refused(kind, "no queue", with(s.cfg, "queue", "\x00"))
				for _, v := range []string{"x", "", "1.5", "0x1", "1 ", "99999999999999999999"} {
					refused(kind, "database "+v, with(s.cfg, "db", v))
				}
				unusable(kind, "a database out of range", with(s.cfg, "db", "4711"))
				unusable(kind, "an unreachable server", with(s.cfg, "server", closed))
				if s.b.Pass != "" {
					unusable(kind, "a wrong password", with(s.cfg, "password", s.b.Pass+"x"))
					unusable(kind, "no password", with(s.cfg, "password", "\x00"))
				}
				host = ""
			case "nsq":
				unusable(kind, "an unreachable server", with(s.cfg, "server", closed))
				unusable(kind, "no server", with(s.cfg, "server", "\x00"))
				unusable(kind, "no topic", with(s.cfg, "topic", "\x00"))
				unusable(kind, "a bad topic", with(s.cfg, "topic", "a b"))
				host = ""
			case "tarantool_queue":
				for _, k := range []string{"max_recons", "timeout", "reconnect"} {
					for _, v := range []string{"\x00", "", "x", "1.5", "1s"} {
						refused(kind, k+" "+v, with(s.cfg, k, v))
					}
				}
			case "nats":
				refused(kind, "unreachable servers", with(s.cfg, "servers", "nats://"+closed+", nats://"+closedAddr()))
				host = ""
			}
			if host != "" {
				refused(kind, "an unreachable broker", with(with(s.cfg, host, "127.0.0.1"), port, closed[len("127.0.0.1:"):]))
			}
			if Contacts[kind] && s.b.Pass != "" {
				refused(kind, "a wrong password", with(s.cfg, "password", s.b.Pass+"x"))
				refused(kind, "a wrong user", with(s.cfg, "user", s.b.User+"x"))
			}
			if n := s.b.Len(); n > 0 && kind != "nsq" && kind != "redis" {
				r.Violate(kind+" sends", "a record arrives by way of an unusable configuration", s.cfg)
			}
			s.b.Down()
		}
	}
}

// what cannot be serialised is refused and not sent
func badRecords(r *h.Run) {
	r.Parallel("records", len(Kinds)*r.Scale(4, 40), 6, func(i int, rng *rand.Rand) {
		kind := Kinds[i%len(Kinds)]
		s, err := newSetup(kind, rng, nil)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer s.b.Down()
		if kind == "nats" {
			s.b.Max = 1 << 16
		}
		st := newStore(kind)
		rep := map[string]any{"storage": kind, "configuration": s.cfg}
		if o := call(time.Minute, func() error { return st.Init(s.cfg) }); !judge(r, kind+" Init", o, rep) || o.err != nil {
			if o.err != nil {
				r.Violate(kind+" Init", "fails with a broker that works: "+o.err.Error(), rep)
			}
			return
		}
		defer call(10*time.Second, st.Close)
		sent := 0
		for k := 0; k < 16; k++ {
			what, m := "a record", message(record(rng, uint32(k)))
			switch k % 4 {
			case 0:
				what, m = "nothing", nil
			case 1:
				what, m = "a record that cannot be serialised", broken{[][]byte{nil, {}, []byte("{"), []byte("half a rec")}[rng.Intn(4)]}
			case 2:
				if kind != "nats" {
					break
				}
				what, m = "a record larger than the server takes", &note{string(make([]byte, 1<<16+1+rng.Intn(1000)))}
			default:
				m = &note{fmt.Sprint("small ", k)}
			}
			o := call(time.Minute, func() error { return st.Save(m) })
			if !judge(r, kind+" Save", o, rep) {
				return
			}
			ok := what == "a record"
			if ok {
				sent++
			}
			if (o.err == nil) != ok {
				r.Violate(kind+" refusal", fmt.Sprintf("saving %s: %v", what, o), rep)
				return
			}
			r.Eval("record " + kind + what)
			r.Count("records refused or sent", 1)
		}
		eventually(30*time.Second, func() bool { return s.b.Len() >= sent })
		if n := s.b.Len(); n != sent {
			r.Violate(kind+" sends", fmt.Sprintf("%d messages arrive, %d were saved", n, sent), rep)
		}
	})
}
