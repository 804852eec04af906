package sto

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"verif/harness/h"
)

// T03 - a connector puts exactly the record, once, where it is told to.
func T03(r *h.Run) {
	r.Rule = "one evaluation per record saved and compared with what the broker received; distinct: connector, configuration and record; nontrivial always"
	r.Parallel("deliver", r.Scale(72, 2400), 5, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		kind := Kinds[i%len(Kinds)]
		var plan Plan
		if rng.Intn(3) == 0 { // an answer now and then takes longer
			plan = func(stage string, n int) string {
				if n%7 == 3 {
					return "slow"
				}
				return ""
			}
		}
		s, err := newSetup(kind, rng, plan)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer s.b.Down()
		rep := map[string]any{"storage": kind, "configuration": s.cfg}
		st := newStore(kind)
		if o := call(time.Minute, func() error { return st.Init(s.cfg) }); !judge(r, kind+" Init", o, rep) {
			return
		} else if o.err != nil {
			r.Violate(kind+" Init", "fails with a broker that works: "+o.err.Error(), rep)
			return
		}
		g, each := 1, 20
		if rng.Intn(3) > 0 {
			g = 2 + rng.Intn(15)
		}
		want := map[string]bool{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		bad := false
		for a := 0; a < g; a++ {
			rg := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for b := 0; b < each; b++ {
					rec := record(rg, uint32(a*each+b))
					form := plain(rec)
					body, err := rec.ToBytes()
					if err != nil {
						r.Violate("record", "ToBytes: "+err.Error(), rec)
						return
					}
					var x, y any
					if (len(body) < 20000 || b == 0) && (json.Unmarshal(body, &x) != nil || json.Unmarshal([]byte(form), &y) != nil || !reflect.DeepEqual(x, y)) {
						r.Violate("record", "ToBytes is not the JSON form of the record: "+string(body), rec)
						return
					}
					o := call(2*time.Minute, func() error { return st.Save(rec) })
					mu.Lock()
					want[string(body)] = true
					if !judge(r, kind+" Save", o, rep) {
						bad = true
					} else if o.err != nil {
						r.Violate(kind+" Save", "fails with a broker that works: "+o.err.Error(), rep)
						bad = true
					}
					if len(body) > 100_000 {
						r.Count("records over 100 kB", 1)
					}
					mu.Unlock()
					r.Eval(kind + string(body) + s.dest)
				}
			}()
		}
		wg.Wait()
		if bad {
			return
		}
		eventually(time.Minute, func() bool { return s.b.Len() >= len(want) })
		time.Sleep(20 * time.Millisecond)
		seen := map[string]int{}
		for _, m := range s.b.Msgs() {
			if m.Dest != s.dest {
				r.Violate(kind+" destination", fmt.Sprintf("a record went to %q, configured is %q", m.Dest, s.dest), rep)
				return
			}
			if m.Via != s.via {
				r.Violate(kind+" credentials", fmt.Sprintf("a record came by way of %q, configured is %q", m.Via, s.via), rep)
				return
			}
			if !want[m.Body] {
				r.Violate(kind+" payload", fmt.Sprintf("the broker received what was not saved: %.300q", m.Body), rep)
				return
			}
			if m.Terms != "" {
				r.Violate(kind+" terms", "a record is delivered with a limit that makes the broker drop or delay it: "+m.Terms, rep)
				return
			}
			seen[m.Body]++
			if seen[m.Body] > 1 {
				r.Violate(kind+" twice", fmt.Sprintf("a record was delivered %d times: %.300q", seen[m.Body], m.Body), rep)
				return
			}
		}
		if len(seen) != len(want) {
			r.Violate(kind+" lost", fmt.Sprintf("%d of %d records that were saved with success did not arrive", len(want)-len(seen), len(want)), rep)
			return
		}
		if bad := s.b.Bad(); len(bad) > 0 {
			r.Violate(kind+" protocol", fmt.Sprint("the broker does not understand the connector: ", bad), rep)
			return
		}
		r.Count("delivered by "+kind, int64(len(seen)))
		if g > 1 {
			r.Count("configurations with concurrent savers", 1)
		}
		if i < 6 {
			r.Sample(rep)
		}
		if o := call(time.Minute, st.Close); !judge(r, kind+" Close", o, rep) {
			return
		}
		// a closed connector does not claim to have saved anything
		late := record(rng, 1<<30)
		o := call(time.Minute, func() error { return st.Save(late) })
		if judge(r, kind+" Save after Close", o, rep) && o.err == nil {
			b, _ := late.ToBytes()
			if !eventually(5*time.Second, func() bool {
				for _, m := range s.b.Msgs() {
					if m.Body == string(b) {
						return true
					}
				}
				return false
			}) {
				r.Violate(kind+" closed", "Save after Close reports success but nothing was sent", rep)
			}
		}
		r.Count("saves after Close", 1)
	})
}
