package srv

import (
	"bytes"
	"fmt"
	"math/rand"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

// endsWith tells whether the last packet's reply (and nothing after it) has arrived.
func endsWith(pid uint16) func([]Reply) bool {
	return func(x []Reply) bool {
		return len(x) > 0 && x[len(x)-1].P != nil && x[len(x)-1].P.PT == ref.PtResponse && x[len(x)-1].P.RPID == pid
	}
}

// canon is an export without its time of reception.
func canon(e Exp) string {
	e.ReceivedDt = ""
	return fmt.Sprintf("%+v", e)
}

type outcome struct {
	replies []byte
	exports []string
	got     []Reply
	err     error
}

func (o *outcome) take(rec *Recorder) {
	for _, g := range o.got {
		o.replies = append(o.replies, g.Raw...)
	}
	for _, s := range rec.Take() {
		o.exports = append(o.exports, canon(s.E))
	}
}

// S07 - TCP segmentation does not matter.
func S07(r *h.Run) {
	r.Rule = "one evaluation per stream and segmentation; distinct: stream bytes and cut points; nontrivial if the segmentation differs from one write per packet"
	fleet(r, "segmentation", r.Scale(150, 3000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		var items []*Item
		switch i % 5 {
		case 0: // large ones
			for k := 0; k < 4; k++ {
				items = append(items, g.Sized(edges[rng.Intn(len(edges))]), g.Data())
			}
		case 1: // small ones only
			for k := 0; k < 12; k++ {
				items = append(items, g.Sized(60+rng.Intn(20)), g.Identify(k))
			}
		case 2: // header only packets of a peer, and the like
			for k := 0; k < 10; k++ {
				items = append(items, g.Response(), g.Bare(), g.Sized(60))
			}
		default:
			items = traffic(g, i, 8+rng.Intn(30), true)
		}
		end := g.Sentinel()
		used := map[uint16]bool{}
		for _, it := range items {
			used[it.PID] = true
		}
		for used[end.PID] {
			end = g.Sentinel()
		}
		items = append(items, end)
		all := stream(items)
		enough := endsWith(end.PID)

		// the reference: one packet per write, each fully answered before the next
		var want outcome
		func() {
			c, err := Dial(s.Addr)
			if err != nil {
				want.err = err
				return
			}
			defer c.Close()
			for k, it := range items {
				need := 0
				if it.Kind != "response" {
					need++
				}
				if it.Result {
					need++
				}
				x, err := Exchange(c, []Chunk{{B: it.Wire}}, 0, func(x []Reply) bool { return len(x) >= need })
				want.got = append(want.got, x...)
				if err != nil {
					want.err = fmt.Errorf("packet %d: %w", k, err)
					return
				}
			}
		}()
		want.take(rec)
		if want.err != nil {
			trouble(r, want.err, "session ends early", caseOf(items, 0, want.got, "one packet at a time"))
			return
		}
		ways := map[string][]Chunk{}
		ways["one write"] = []Chunk{{B: all}}
		ways["random pieces"] = Segment(rng, items, 2)
		// cuts close to the boundaries inside a packet, each followed by a pause
		var cs []Chunk
		pauses := 0
		for _, it := range items {
			hl := int(it.Wire[3])
			cuts := []int{0, 1, 2, 3, 5, 6, 7, 9, 10, 11, hl - 1, hl, hl + 1, len(it.Wire) - 3, len(it.Wire) - 2, len(it.Wire) - 1}
			from := 0
			for _, c := range cuts {
				if c > from && c < len(it.Wire) && (rng.Intn(3) == 0 || pauses < 12) {
					p := time.Duration(0)
					if pauses < 60 {
						p = time.Duration(200+rng.Intn(1500)) * time.Microsecond
						pauses++
					}
					cs = append(cs, Chunk{it.Wire[from:c], p})
					from = c
				}
			}
			cs = append(cs, Chunk{B: it.Wire[from:]})
		}
		ways["cuts at boundaries"] = cs
		// the end of each packet together with the start of the next
		cs = nil
		off := 0
		prev := 0
		for _, it := range items {
			off += len(it.Wire)
			cut := off + 1 + rng.Intn(10)
			if cut >= len(all) {
				break
			}
			cs = append(cs, Chunk{all[prev:cut], time.Duration(rng.Intn(800)) * time.Microsecond})
			prev = cut
		}
		ways["across boundaries"] = append(cs, Chunk{B: all[prev:]})
		ways["one write and the end"] = []Chunk{{B: all}, {Pause: -1}}
		if len(all) < 6000 || i%10 == 0 && len(all) < 40000 {
			cs = nil
			for k := range all {
				p := time.Duration(0)
				if k < 40 || rng.Intn(200) == 0 {
					p = 300 * time.Microsecond
				}
				cs = append(cs, Chunk{all[k : k+1], p})
			}
			ways["byte by byte"] = cs
		}
		for _, name := range []string{"one write", "random pieces", "cuts at boundaries", "across boundaries", "one write and the end", "byte by byte"} {
			cs, ok := ways[name]
			if !ok {
				continue
			}
			var o outcome
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			o.got, o.err = Exchange(c, cs, 2*time.Millisecond, enough)
			c.Close()
			o.take(rec)
			cuts := []int{}
			for _, x := range cs {
				if len(cuts) < 200 {
					cuts = append(cuts, len(x.B))
				}
			}
			rep := caseOf(items, 0, o.got, map[string]any{"segmentation": name, "pieces": cuts, "want_replies": fmt.Sprintf("%x", clip(want.replies))})
			if o.err != nil {
				trouble(r, o.err, "session ends early: "+name, rep)
				return
			}
			if !bytes.Equal(o.replies, want.replies) {
				r.Violate("replies depend on segmentation: "+name, fmt.Sprintf("%d bytes, %d from the unsegmented stream", len(o.replies), len(want.replies)), rep)
				return
			}
			if d := diffStrings(o.exports, want.exports); d != "" {
				r.Violate("exports depend on segmentation: "+name, d, rep)
				return
			}
			r.Count("segmentations: "+name, 1)
			r.Count("segments written", int64(len(cs)))
			r.Count("reply bytes compared", int64(len(o.replies)))
			r.Count("exports compared", int64(len(o.exports)))
			r.Eval(fmt.Sprint(name, cuts, string(clip(all))))
		}
		if i < 3 {
			r.Sample(map[string]any{"bytes": len(all), "packets": len(items), "replies": len(want.replies), "exports": len(want.exports)})
		}
	})
}

func clip(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

func diffStrings(got, want []string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d records, want %d", len(got), len(want))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("record %d: %s, want %s", i, got[i], want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d records, want %d", len(got), len(want))
	}
	return ""
}
