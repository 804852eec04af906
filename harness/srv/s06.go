package srv

import (
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

// plan is what one storage does with the records of a batch, by the time of
// their first position.
type plan struct {
	mu   sync.Mutex
	fail map[string]int // number of times to fail; -1: always
	slow map[string]time.Duration
	ok   map[string]int // Save calls that have returned success
	errs map[string]int
}

func newPlan() *plan {
	return &plan{fail: map[string]int{}, slow: map[string]time.Duration{}, ok: map[string]int{}, errs: map[string]int{}}
}

// planned is a storage that follows a plan.
type planned struct{ p *plan }

func (s planned) Save(m interface{ ToBytes() ([]byte, error) }) error {
	raw, err := m.ToBytes()
	if err != nil {
		return err
	}
	sv, err := parseSaved(raw)
	if err != nil || len(sv.E.Loc) == 0 {
		return err
	}
	d := sv.E.Loc[0].Dt
	s.p.mu.Lock()
	slow := s.p.slow[d]
	s.p.mu.Unlock()
	time.Sleep(slow)
	s.p.mu.Lock()
	defer s.p.mu.Unlock()
	if n := s.p.fail[d]; n != 0 {
		s.p.fail[d] = n - 1
		s.p.errs[d]++
		return errors.New("scripted failure")
	}
	s.p.ok[d]++
	return nil
}

func (s planned) Init(map[string]string) error { return nil }
func (s planned) Close() error                 { return nil }

// S06 - a success acknowledgement means every storage has the data.
func S06(r *h.Run) {
	r.Rule = "one evaluation per packet sent; distinct: number of storages, which of them fail for which export, delays, position in its stream; nontrivial if it exports something"
	outcomes := []string{"all store", "one fails", "several fail", "all fail"}
	r.Parallel("outcomes", r.Scale(260, 6000), 32, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 64 {
			return
		}
		n := 1 + i%4
		plans := make([]*plan, n)
		for k := range plans {
			plans[k] = newPlan()
		}
		var order []saver
		for _, p := range plans {
			order = append(order, planned{p})
		}
		s, err := Start(60*time.Second, order...)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		g := NewGen(rng)
		var items []*Item
		what := map[*Item]string{}
		slowOne := 0
		for k := 12 + rng.Intn(40); k > 0; k-- {
			var it *Item
			switch rng.Intn(5) {
			case 0:
				it = g.Objects()
			case 1:
				it = g.Identify(rng.Intn(4))
			default:
				it = g.Data()
			}
			mode := rng.Intn(6)
			o := 0
			desc := ""
			for _, e := range it.Exports {
				d := e.Loc[0].Dt
				failing := 0
				for _, p := range plans {
					f := false
					switch mode {
					case 0: // everything fails
						f = true
					case 1: // one storage, one export
						f = rng.Intn(n*len(it.Exports)) == 0
					case 2:
						f = rng.Intn(2) == 0
					}
					if f {
						p.fail[d] = -1
						failing++
						desc += "F"
					} else {
						desc += "."
					}
					if rng.Intn(20) == 0 && slowOne < 8 {
						slowOne++
						p.slow[d] = time.Duration(1+rng.Intn(8)) * time.Millisecond
						desc += "s"
					}
				}
				switch {
				case failing == n:
					o = 3
				case failing > 1:
					o = max(o, 2)
				case failing == 1:
					o = max(o, 1)
				}
				desc += "/"
			}
			what[it] = fmt.Sprint(n, desc, o)
			items = append(items, it)
			r.Count("packets: "+outcomes[o], 1)
		}
		items = append(items, g.Sized(60))
		c, err := Dial(s.Addr)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer c.Close()

		// judge looks at one reply at the moment it arrives
		bad := false
		judge := func(k int, g *Reply) {
			it := items[k]
			if g.P == nil || g.P.RPID != it.PID {
				r.Violate("reply out of step after storage failures", fmt.Sprintf("packet %d id %d: %s", k, it.PID, g), caseOf(items, k, []Reply{*g}, what[it]))
				bad = true
				return
			}
			_, st, _ := confirmed(g.P)
			success := g.P.Result == 0
			for _, x := range st {
				success = success && x == 0
			}
			missing := ""
			failing := false
			for _, e := range it.Exports {
				d := e.Loc[0].Dt
				for j, p := range plans {
					p.mu.Lock()
					if p.ok[d] == 0 {
						missing = fmt.Sprintf("storage %d of %d has not stored the record of object %d with %d positions (it returned %d errors)", j+1, n, e.ClientID, len(e.Loc), p.errs[d])
					}
					if p.fail[d] != 0 {
						failing = true
					}
					p.mu.Unlock()
				}
			}
			switch {
			case success && missing != "":
				r.Violate("success acknowledged without the data stored", fmt.Sprintf("packet %d: %s", k, missing), caseOf(items, k, []Reply{*g}, what[it]))
				bad = true
			case !success && !failing:
				r.Violate("failure reported though every storage succeeds", fmt.Sprintf("packet %d: result %d statuses %v", k, g.P.Result, st), caseOf(items, k, []Reply{*g}, what[it]))
				bad = true
			case success:
				r.Count("success acknowledgements checked", int64(min(1, len(it.Exports))))
			default:
				r.Count("failure acknowledgements checked", 1)
			}
		}
		next := 0
		how := "lockstep"
		if i%2 == 0 {
			how = "pipelined"
			_, err = Exchange(c, Segment(rng, items, rng.Intn(3)), 0, func(x []Reply) bool {
				if len(x) > 0 && next < len(items) && !bad {
					if g := &x[len(x)-1]; g.P == nil || g.P.PT == ref.PtResponse {
						judge(next, g)
						next++
					}
				}
				return next >= len(items) || bad
			})
		} else {
			_, err = Lockstep(c, items, 0, func(k int, got []Reply) {
				for j := range got {
					if p := got[j].P; p != nil && p.PT != ref.PtResponse {
						continue
					}
					if !bad {
						judge(k, &got[j])
					}
				}
				next++
			})
		}
		if bad {
			return
		}
		// a failure is no reason to offer a record twice: the terminal sends it again
		offers := map[string]int{}
		for _, it := range items {
			for _, e := range it.Exports {
				offers[e.Loc[0].Dt]++
			}
		}
		for j, p := range plans {
			p.mu.Lock()
			for d, most := range offers {
				if got := p.ok[d] + p.errs[d]; got > most {
					r.Violate("a record sent once is stored again", fmt.Sprintf("storage %d of %d was given the record of %s %d times (%d errors), it was sent %d times", j+1, n, d, got, p.errs[d], most), caseOf(items, 0, nil, how))
					bad = true
					break
				}
				r.Count("records offered as often as sent", 1)
			}
			p.mu.Unlock()
		}
		if bad {
			return
		}
		if err != nil {
			trouble(r, err, "connection unusable after storage failures", caseOf(items, min(next, len(items)-1), nil, how))
			return
		}
		for k, it := range items {
			if len(it.Exports) == 0 {
				r.Eval("")
			} else {
				r.Eval(fmt.Sprint(what[it], k, how))
			}
		}
		if i < 4 {
			r.Sample(map[string]any{"storages": n, "packets": len(items), "outcomes": what[items[0]], "how": how})
		}
	})
	gateAcks(r)
}

// gateAcks holds one Save back and watches that no acknowledgement gets out
// while it has not returned.
func gateAcks(r *h.Run) {
	holds := []time.Duration{40, 40, 40, 40, 40, 1500, 3500, 11000} // ms
	if r.Thorough {
		holds = append(holds, 35000, 65000)
	}
	r.Parallel("gated", r.Scale(48, 400), 48, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 16 {
			return
		}
		n := 1 + i%4
		k := rng.Intn(n)
		hold := holds[i%len(holds)] * time.Millisecond
		var outcome error
		if rng.Intn(2) == 0 && hold > time.Second {
			outcome = errors.New("scripted failure")
		}
		gate := make(chan struct{})
		var inside atomic.Int64
		var sv []saver
		for j := 0; j < n; j++ {
			rec := &Recorder{}
			if j == k {
				rec.Hook = func(*Saved) error {
					inside.Add(1)
					<-gate
					return outcome
				}
			}
			sv = append(sv, rec)
		}
		s, err := Start(60*time.Second, sv...)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		c, err := Dial(s.Addr)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer c.Close()
		g := NewGen(rng)
		it := g.Data()
		for len(it.Exports) == 0 {
			it = g.Data()
		}
		c.Write(it.Wire)
		for t := time.Now(); inside.Load() == 0; time.Sleep(time.Millisecond) {
			if time.Since(t) > Patience {
				close(gate)
				r.Violate("storage not reached", fmt.Sprintf("storage %d of %d", k+1, n), caseOf([]*Item{it}, 0, nil, nil))
				return
			}
		}
		// now the reply must wait
		p, raw, err := c.Next(hold)
		if err == nil && p.PT == ref.PtResponse && p.Result == 0 {
			_, st, _ := confirmed(p)
			all := true
			for _, x := range st {
				all = all && x == 0
			}
			if all {
				r.Violate("success acknowledged while a storage is still busy", fmt.Sprintf("storage %d of %d", k+1, n), map[string]any{"reply": fmt.Sprintf("%x", raw), "packet": it.describe()})
			}
		} else if err != errTimeout {
			r.Violate("reply while a storage is busy", fmt.Sprint(err), map[string]any{"reply": fmt.Sprintf("%x", raw), "packet": it.describe()})
		}
		close(gate)
		if err == errTimeout {
			p, _, err = c.Next(Patience)
			if err == nil && outcome != nil {
				_, st, _ := confirmed(p)
				all := p.Result == 0
				for _, x := range st {
					all = all && x == 0
				}
				if all {
					r.Violate("success acknowledged though a slow storage failed", fmt.Sprintf("storage %d of %d, after %v", k+1, n, hold), map[string]any{"packet": it.describe()})
				} else {
					r.Count("failures of slow storages reported", 1)
				}
			} else if err != nil || p.Result != 0 {
				trouble(r, fmt.Errorf("after the storage returned: %v", err), "no acknowledgement after a slow storage", map[string]any{"packet": it.describe()})
			} else {
				r.Count("acknowledgements held until storage returned", 1)
			}
		}
		r.Eval(fmt.Sprint("gate", n, k, hold, outcome, it.sig()))
	})
}
