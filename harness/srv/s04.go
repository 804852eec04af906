package srv

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/harness/h"
)

// waitSaved signals once a position with the given time has been stored.
func waitSaved(rec *Recorder, dts ...string) <-chan struct{} {
	left := map[string]bool{}
	for _, d := range dts {
		left[d] = true
	}
	ch := make(chan struct{})
	rec.mu.Lock()
	defer rec.mu.Unlock()
	rec.OnSave = func(s *Saved) {
		if len(left) == 0 {
			return
		}
		for _, l := range s.E.Loc {
			delete(left, l.Dt)
		}
		if len(left) == 0 {
			close(ch)
		}
	}
	return ch
}

// pour writes the items and throws the replies away.
func pour(addr string, rng *rand.Rand, items []*Item, how int) (closeIt func(), err error) {
	c, err := Dial(addr)
	if err != nil {
		return nil, err
	}
	go func() {
		for _, ch := range Segment(rng, items, how) {
			if c.Write(ch.B) != nil {
				return
			}
			time.Sleep(ch.Pause)
		}
	}()
	go func() {
		b := make([]byte, 65536)
		for {
			if _, err := c.c.Read(b); err != nil {
				return
			}
		}
	}()
	return c.Close, nil
}

// S04 - every accepted position is exported exactly once and in order.
func S04(r *h.Run) {
	r.Rule = "one evaluation per packet sent; distinct: shape and place in its stream; nontrivial if it carries a position or is refused"
	fleet(r, "positions", r.Scale(230, 5000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		conns := 1
		if i%3 == 2 {
			conns = 2 + rng.Intn(5)
		}
		streams := make([][]*Item, conns)
		owner := map[string]int{}
		var ends []string
		for c := range streams {
			g := NewGen(rng)
			g.ntm = uint32(c)<<28 + uint32(rng.Intn(1<<26))
			g.Twins = true
			var items []*Item
			switch i % 8 {
			case 0:
				for k := 0; k < 5; k++ {
					items = append(items, g.Many(2+rng.Intn(1500)), g.Data())
				}
				items = append(items, g.Many(1500+rng.Intn(450)), g.Bulk(65535), g.Bulk(1000+rng.Intn(64000)), g.Crowd(1872), g.Crowd(2+rng.Intn(1500)))
			case 1:
				for k := 0; k < 8; k++ {
					items = append(items, g.Sized(edges[rng.Intn(len(edges))]))
				}
				for k := 0; k < 30; k++ {
					items = append(items, g.Objects())
				}
			case 3:
				for k := 0; k < 10+rng.Intn(60); k++ {
					items = append(items, g.Objects())
				}
			default:
				items = traffic(g, i, 10+rng.Intn(90), true)
			}
			end := g.Sized(60)
			items = append(items, end)
			streams[c] = items
			ends = append(ends, end.Exports[0].Loc[0].Dt)
			for _, e := range expected(items) {
				for _, l := range e.Loc {
					owner[l.Dt] = c
				}
			}
		}
		how := rng.Intn(3)
		done := waitSaved(rec, ends...)
		for c := range streams {
			cl, err := pour(s.Addr, rand.New(rand.NewSource(rng.Int63())), streams[c], how)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			defer cl()
		}
		stuck := false
		select {
		case <-done:
			time.Sleep(2 * time.Millisecond) // surplus of the last one
		case <-time.After(Patience):
			stuck = true
		}
		got := make([][]flat, conns)
		var stray []flat
		for _, sv := range rec.Take() {
			if sv.E.Count != len(sv.E.Loc) || len(sv.E.Loc) == 0 {
				r.Violate("position count", fmt.Sprintf("loc_states_count %d with %d positions", sv.E.Count, len(sv.E.Loc)), string(sv.Raw))
				return
			}
			for _, f := range flatten([]Exp{sv.E}) {
				if c, ok := owner[f.loc.Dt]; ok {
					got[c] = append(got[c], f)
				} else {
					stray = append(stray, f)
				}
			}
			r.Count("records exported", 1)
		}
		if len(stray) > 0 {
			r.Violate("position nobody sent for storage", fmt.Sprintf("%+v and %d more", stray[0], len(stray)-1), caseOf(streams[0], 0, nil, nil))
			return
		}
		for c := range streams {
			want := flatten(expected(streams[c]))
			if d := diffFlat(got[c], want); d != "" {
				at := 0
				// the packet the first difference belongs to
				for k, n := 0, 0; k < len(streams[c]); k++ {
					n += len(flatten(streams[c][k].Exports))
					if n > common(got[c], want) {
						at = k
						break
					}
				}
				if stuck && Starved(5*time.Second) {
					r.Inconclusive("exports incomplete, but this machine did not get to run for seconds")
					return
				}
				r.Violate("exported positions", fmt.Sprintf("connection %d of %d, packet %d: %s", c+1, conns, at, d), caseOf(streams[c], at, nil, hows[how]))
				return
			}
			r.Count("positions exported", int64(len(want)))
			for k, it := range streams[c] {
				r.Eval(fmt.Sprint(it.sig(), k))
				if len(it.Exports) == 0 {
					r.Count("packets that export nothing", 1)
				}
				if len(it.Exports) > 1 {
					r.Count("packets with several objects", 1)
				}
			}
		}
		if i < 3 {
			r.Sample(caseOf(streams[0], 3, nil, map[string]any{"connections": conns, "exports": expected(streams[0])[:1]}))
		}
	})
}

func common(a, b []flat) int {
	n := 0
	for n < len(a) && n < len(b) && a[n].id == b[n].id && a[n].loc.Dt == b[n].loc.Dt {
		n++
	}
	return n
}

var utcOnce sync.Once

// S05 - exported records carry the transmitted values unchanged.
func S05(r *h.Run) {
	// local time is not UTC here, so that a missing conversion shows
	utcOnce.Do(func() { time.Local = time.FixedZone("X", 5*3600+45*60) })
	r.Rule = "one evaluation per packet sent; distinct: wire bytes; nontrivial if it is exported"
	fleet(r, "values", r.Scale(300, 6000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		var items []*Item
		switch i % 6 {
		case 0: // all combinations of analog sensors, flags of positions, counters
			for k := 0; k < 64; k++ {
				items = append(items, g.Sensors(i/6*64+k))
			}
		case 1:
			for k := 0; k < 40; k++ {
				items = append(items, g.Objects())
			}
			items = append(items, g.Crowd(200+rng.Intn(1600)))
		default:
			items = traffic(g, i, 20+rng.Intn(80), i%2 == 1)
		}
		if i%8 < 3 {
			items = append(items, g.Bulk([]int{65535, 3000, 500 + rng.Intn(65000)}[i%8]))
		}
		items = append(items, g.Sized(60))
		how := rng.Intn(3)
		if i%2 == 0 {
			how = 3
		}
		t0 := time.Now()
		if how == 3 {
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			defer c.Close()
			from := t0
			_, err = Lockstep(c, items, 0, func(k int, got []Reply) {
				judgeValues(r, items[k:k+1], rec.Take(), from, time.Now(), got)
				from = time.Now()
			})
			if err != nil {
				trouble(r, err, "session ends early", caseOf(items, 0, nil, nil))
			}
			return
		}
		end := items[len(items)-1]
		done := waitSaved(rec, end.Exports[0].Loc[0].Dt)
		cl, err := pour(s.Addr, rand.New(rand.NewSource(rng.Int63())), items, how)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer cl()
		select {
		case <-done:
		case <-time.After(Patience):
		}
		judgeValues(r, items, rec.Take(), t0, time.Now(), nil)
		if i < 3 {
			r.Sample(caseOf(items, 3, nil, expected(items)[:1]))
		}
	})
}

func judgeValues(r *h.Run, items []*Item, sv []Saved, from, to time.Time, got []Reply) {
	k := 0
	for i, it := range items {
		for j := range it.Exports {
			if k >= len(sv) {
				if Starved(5 * time.Second) {
					r.Inconclusive("record not exported, but this machine did not get to run for seconds")
				} else {
					r.Violate("record not exported", fmt.Sprintf("packet %d export %d: %+v", i, j, it.Exports[j]), caseOf(items, i, got, nil))
				}
				return
			}
			e := &sv[k]
			k++
			if d := DiffExp(&e.E, &it.Exports[j]); d != "" {
				r.Violate("exported value: "+class(d), fmt.Sprintf("packet %d export %d: %s", i, j, d), caseOf(items, i, got, map[string]any{"got": string(e.Raw), "want": it.Exports[j]}))
				return
			}
			if e.KeyError != "" {
				r.Violate("JSON keys", e.KeyError, string(e.Raw))
				return
			}
			if e.E.ServerID != "EGTS_GATE0" {
				r.Violate("server_id", e.E.ServerID, string(e.Raw))
				return
			}
			t, err := time.Parse(time.RFC3339, e.E.ReceivedDt)
			if _, off := t.Zone(); err != nil || off != 0 || t.Before(from.Truncate(time.Second)) || t.After(to) {
				r.Violate("received_dt", fmt.Sprintf("%q, sent after %s, stored before %s (%v)", e.E.ReceivedDt, from.UTC(), to.UTC(), err), string(e.Raw))
				return
			}
			r.Count("exports compared", 1)
			r.Count("positions compared", int64(len(e.E.Loc)))
			r.Count("sensor values compared", int64(len(e.E.An)+len(e.E.Liquid)))
		}
		r.EvalBytes(it.Wire, len(it.Exports) > 0)
	}
	if k < len(sv) {
		r.Violate("surplus record", string(sv[k].Raw), caseOf(items, len(items)-1, got, nil))
	}
}
