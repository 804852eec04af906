package sto

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
	"verif/harness/srv"
)

// delivery is what became of one packet.
type delivery struct {
	it    *srv.Item
	sent  int
	acked time.Time // when the first success arrived; zero: never
}

// terminal sends its packets until each of them has been acknowledged with success.
type terminal struct {
	list    []*delivery
	refused int // replies that report a failure
	drops   int // connections that ended early
	trouble string
}

// run delivers the packets in order, some of them ahead of the replies. It sends again
// what was not acknowledged, as terminals do.
func (t *terminal) run(addr string, rng *rand.Rand, calm bool, limit time.Duration, stop func() bool) {
	end := time.Now().Add(limit)
	next := 0 // all before it are acknowledged
	for next < len(t.list) {
		if stop() {
			return
		}
		if time.Now().After(end) {
			t.trouble = fmt.Sprintf("packet %d of %d is not acknowledged with success after it was sent %d times within %v", next, len(t.list), t.list[next].sent, limit)
			return
		}
		c, err := srv.Dial(addr)
		if err != nil {
			time.Sleep(10 * time.Millisecond)
			continue
		}
		err = t.session(c, &next, rng, calm, end)
		if err == nil && !calm && rng.Intn(2) == 0 {
			c.Abort()
		} else {
			c.Close()
		}
		if err != nil {
			t.drops++
			time.Sleep(time.Duration(5+rng.Intn(20)) * time.Millisecond)
		}
		if t.trouble != "" {
			return
		}
	}
}

func (t *terminal) session(c *srv.Client, next *int, rng *rand.Rand, calm bool, end time.Time) error {
	for *next < len(t.list) && time.Now().Before(end) {
		batch := t.list[*next:min(len(t.list), *next+1+rng.Intn(6))]
		var wire []byte
		for _, d := range batch {
			wire = append(wire, d.it.Wire...)
			d.sent++
		}
		if err := c.Write(wire); err != nil {
			return err
		}
		if !calm && rng.Intn(12) == 0 {
			return nil // does not wait for the replies
		}
		failed := false
		for _, d := range batch {
			p, raw, err := c.Next(srv.Patience)
			for err == nil && p.PT != ref.PtResponse {
				p, raw, err = c.Next(srv.Patience)
			}
			if err != nil {
				if calm {
					t.trouble = fmt.Sprintf("no reply to packet %d: %v", d.it.PID, err)
				}
				return err
			}
			if p.RPID != d.it.PID {
				t.trouble = fmt.Sprintf("packet %d is sent, packet %d is acknowledged: %x", d.it.PID, p.RPID, raw)
				return nil
			}
			good := p.Result == 0
			for i := range p.Records {
				for _, s := range p.Records[i].Subs {
					if w := s.V.Wire(); len(w) != 3 || w[2] != 0 {
						good = false
					}
				}
			}
			if !good {
				t.refused++
				failed = true
				if calm {
					t.trouble = fmt.Sprintf("packet %d is refused with %d although every storage works", d.it.PID, p.Result)
					return nil
				}
			} else if d.acked.IsZero() {
				d.acked = time.Now()
			}
		}
		for *next < len(t.list) && !t.list[*next].acked.IsZero() {
			*next++
		}
		if failed {
			time.Sleep(time.Duration(5+rng.Intn(30)) * time.Millisecond)
		}
		if !calm && rng.Intn(8) == 0 {
			return nil
		}
	}
	return nil
}

// stores picks the storages of a scenario.
func stores(rng *rand.Rand, confirming bool) (out []string) {
	for _, k := range Kinds {
		if !confirming || Confirms[k] {
			out = append(out, k)
		}
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:1+rng.Intn(3)]
}

// G04 - the receiver program, its storages and its terminals lose nothing together.
func G04(r *h.Run) {
	r.Rule = "one evaluation per packet with positions brought to success; distinct: wire bytes, storages, kind of scenario; nontrivial always"
	modes := []string{"calm", "killed at the end", "kills", "outages", "errors", "kills and outages"}
	r.Parallel("fleet", r.Scale(72, 1500), 6, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		scenario(r, i, rng, modes[i%len(modes)])
	})
}

func scenario(r *h.Run, i int, rng *rand.Rand, mode string) {
	calm := mode == "calm" || mode == "killed at the end"
	kills, outages, errs := strings.Contains(mode, "kills"), strings.Contains(mode, "outages"), mode == "errors"
	names := stores(rng, mode == "killed at the end")
	var on, broken atomic.Bool // the faults; the program does not run any more
	sets := map[string]*setup{}
	conf := "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 60\nlog_level: ERROR\nstorage:\n"
	for _, k := range names {
		frng := rand.New(rand.NewSource(rng.Int63()))
		var fmu sync.Mutex
		s, err := newSetup(k, rng, func(stage string, n int) string {
			switch stage {
			case "publish", "put", "execute", "sync":
			default:
				return ""
			}
			if !errs || !on.Load() {
				return ""
			}
			fmu.Lock()
			defer fmu.Unlock()
			if frng.Intn(5) > 0 {
				return ""
			}
			return []string{"error", "close", "reset", "half", "slow", "after"}[frng.Intn(6)]
		})
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer func() {
			s.b.mu.Lock()
			down := s.b.down
			s.b.mu.Unlock()
			if !down {
				s.b.Down()
			}
		}()
		if k == "tarantool_queue" {
			s.cfg["reconnect"], s.cfg["max_recons"], s.cfg["timeout"] = "1", "30", "5"
		}
		if k == "nats" {
			s.cfg["servers"] = "nats://" + s.b.Addr
		}
		sets[k] = s
		conf += "  " + k + ":\n"
		for key, v := range s.cfg {
			q, _ := json.Marshal(v)
			conf += "    " + key + ": " + string(q) + "\n"
		}
	}
	rep := map[string]any{"configuration": conf, "scenario": mode, "program": i}
	prog, addr, err := srv.Receiver(r, i%4 == 1, conf, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(r.OutDir, "race"))
	if prog != nil {
		defer os.RemoveAll(prog.Dir)
	}
	if err != nil {
		if srv.Starved(5 * time.Second) {
			r.Inconclusive("%v", err)
		} else {
			r.Violate("program", err.Error(), rep)
		}
		return
	}
	defer func() { prog.Kill() }()

	n := 1 + rng.Intn(8)
	terms := make([]*terminal, n)
	for c := range terms {
		g := srv.NewGen(rng)
		g.Clock(uint32(c) << 22)
		g.AnyOID, g.OIDBase, g.NeedOID = false, uint32(1000+c*16), true
		t := &terminal{}
		for k, m := 0, 30+rng.Intn(60); k < m; k++ {
			it := g.Data()
			switch rng.Intn(12) {
			case 0:
				it = g.Many(1 + rng.Intn(40))
			case 1:
				it = g.Objects()
			}
			if it.Kind != "data" {
				continue
			}
			t.list = append(t.list, &delivery{it: it})
		}
		terms[c] = t
	}
	on.Store(true)
	var wg sync.WaitGroup
	left := int32(n)
	for c, t := range terms {
		wg.Add(1)
		crng := r.Rng("G04", i, c)
		go func() {
			defer wg.Done()
			defer atomic.AddInt32(&left, -1)
			t.run(addr, crng, calm, 150*time.Second, broken.Load)
		}()
	}
	// what goes wrong meanwhile, for a while
	began := time.Now()
	nk, no := 0, 0
	for !calm && atomic.LoadInt32(&left) > 0 && time.Since(began) < 4*time.Second {
		time.Sleep(time.Duration(10+rng.Intn(120)) * time.Millisecond)
		if kills && rng.Intn(2) == 0 && nk < 6 {
			prog.Kill()
			nk++
			again, err := srv.Again(prog, addr)
			if again != nil {
				prog = again
			}
			if err != nil {
				if srv.Starved(5 * time.Second) {
					r.Inconclusive("%v", err)
				} else {
					r.Violate("program", "does not start again: "+err.Error(), rep)
				}
				broken.Store(true)
				break
			}
		}
		if outages && no < 4 {
			s := sets[names[rng.Intn(len(names))]]
			s.b.Down()
			time.Sleep(time.Duration(rng.Intn(400)) * time.Millisecond)
			if err := s.b.Up(); err != nil {
				r.Inconclusive("%v", err)
				break
			}
			no++
		}
	}
	on.Store(false)
	wg.Wait()
	if broken.Load() {
		return
	}
	exited := prog.Exited()
	if exited {
		rep["output"] = prog.Output()
	}
	if mode == "killed at the end" {
		prog.Kill()
	}
	for c, t := range terms {
		if t.trouble != "" {
			if srv.Starved(5 * time.Second) {
				r.Inconclusive("terminal %d: %s", c, t.trouble)
			} else {
				rep["exited"] = exited
				r.Violate("terminal does not get through", fmt.Sprintf("%s, storages %v, terminal %d: %s", mode, names, c, t.trouble), rep)
			}
			return
		}
	}
	// every record that was to be exported, by the time of its first position
	type owed struct {
		c, k int
		d    *delivery
		e    *srv.Exp
	}
	all := map[string]*owed{}
	for c, t := range terms {
		k := 0
		for _, d := range t.list {
			for e := range d.it.Exports {
				x := &d.it.Exports[e]
				if len(x.Loc) == 0 {
					continue
				}
				all[x.Loc[0].Dt] = &owed{c, k, d, x}
				k++
			}
		}
	}
	for _, name := range names {
		s := sets[name]
		first := map[string]time.Time{}
		count := map[string]int{}
		check := func() (key, msg string) {
			first, count = map[string]time.Time{}, map[string]int{}
			seen := map[int][]int{}
			for _, m := range s.b.Msgs() {
				if m.Dest != s.dest || m.Via != s.via {
					return "destination", fmt.Sprintf("%s got a record at %q by way of %q, configured are %q and %q", name, m.Dest, m.Via, s.dest, s.via)
				}
				sv, err := srv.ParseSaved([]byte(m.Body))
				if err != nil || len(sv.E.Loc) == 0 {
					return "record", fmt.Sprintf("%s got %v: %.300s", name, err, m.Body)
				}
				w := all[sv.E.Loc[0].Dt]
				if w == nil {
					return "record nobody sent", fmt.Sprintf("%s got %.300s", name, m.Body)
				}
				if d := srv.DiffExp(&sv.E, w.e); d != "" {
					return "record", fmt.Sprintf("%s got another record than was sent: %s", name, d)
				}
				count[sv.E.Loc[0].Dt]++
				seen[w.c] = append(seen[w.c], w.k)
				if m.Confirmed {
					if at, ok := first[sv.E.Loc[0].Dt]; !ok || m.At.Before(at) {
						first[sv.E.Loc[0].Dt] = m.At
					}
				}
			}
			if calm {
				for c, l := range seen {
					if !sort.IntsAreSorted(l) {
						return "order", fmt.Sprintf("%s got the records of terminal %d out of order", name, c)
					}
				}
			}
			for dt, w := range all {
				if count[dt] == 0 && (Confirms[name] || calm) {
					return "lost", fmt.Sprintf("%s never got a record of packet %d, which was acknowledged with success (%s)", name, w.d.it.PID, mode)
				}
				if calm && count[dt] > 1 {
					return "twice", fmt.Sprintf("%s got a record %d times", name, count[dt])
				}
			}
			return "", ""
		}
		key, msg := check()
		if key == "lost" && !Confirms[name] { // on its way
			eventually(15*time.Second, func() bool { key, msg = check(); return key != "lost" })
		}
		if key != "" {
			r.Violate(key, msg, rep)
			return
		}
		if bad := s.b.Bad(); calm && len(bad) > 0 {
			r.Violate("protocol", fmt.Sprintf("%s: %v", name, bad), rep)
			return
		}
		if Confirms[name] {
			for dt, w := range all {
				if at, ok := first[dt]; !ok || at.After(w.d.acked) {
					r.Violate("acknowledged too early", fmt.Sprintf("packet %d is acknowledged with success at %v, %s has confirmed its record at %v (%v; %s)", w.d.it.PID, w.d.acked, name, at, ok, mode), rep)
					return
				}
				r.Count("records confirmed before their acknowledgement", 1)
			}
		}
		for _, k := range count {
			r.Count("records in storages", int64(k))
		}
		r.Count("scenarios with "+name, 1)
	}
	resent := 0
	for _, t := range terms {
		for _, d := range t.list {
			if len(d.it.Exports) > 0 {
				r.Eval(fmt.Sprintf("%x %v %s", d.it.Wire, names, mode))
			}
			resent += d.sent - 1
		}
		r.Count("packets refused by then", int64(t.refused))
		r.Count("connections lost", int64(t.drops))
	}
	r.Count("packets sent again", int64(resent))
	r.Count("programs killed", int64(nk))
	r.Count("outages of storages", int64(no))
	r.Count("scenarios: "+mode, 1)
	if i < 6 {
		r.Sample(map[string]any{"scenario": mode, "storages": names, "terminals": n, "records": len(all), "sent again": resent, "killed": nk, "outages": no})
	}
}
