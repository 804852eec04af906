package srv

import (
	"errors"
	"fmt"
	"math/rand"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

// flat is one exported position with its owner.
type flat struct {
	id  uint32
	loc ExpLoc
}

func flatten(es []Exp) (out []flat) {
	for _, e := range es {
		for _, l := range e.Loc {
			out = append(out, flat{e.ClientID, l})
		}
	}
	return
}

func expected(items []*Item) (out []Exp) {
	for _, it := range items {
		out = append(out, it.Exports...)
	}
	return
}

func exps(sv []Saved) (out []Exp) {
	for i := range sv {
		out = append(out, sv[i].E)
	}
	return
}

func diffFlat(got, want []flat) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d positions exported, want %d; the first missing one is %+v", len(got), len(want), want[i])
		}
		a, b := got[i], want[i]
		if a.id != b.id || a.loc.Dt != b.loc.Dt || !feq(a.loc.Lat, b.loc.Lat) || !feq(a.loc.Lng, b.loc.Lng) || a.loc.Speed != b.loc.Speed {
			return fmt.Sprintf("position %d: got %+v, want %+v", i, a, b)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%d positions exported, want %d; the first surplus one is %+v", len(got), len(want), got[len(want)])
	}
	return ""
}

// S03 - damaged packets get an error reply, store nothing and do not break the stream.
func S03(r *h.Run) {
	r.Rule = "one evaluation per packet sent or stream broken; distinct: bytes of the damaged packets, kind of break; nontrivial if damaged or next to a damaged one"
	fleet(r, "damage", r.Scale(260, 6000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		var items []*Item
		n := 10 + rng.Intn(80)
		small := false
		if i%20 == 7 { // long series of damage
			n, small = 700+rng.Intn(1500), true
		}
		for len(items) < n {
			switch x := rng.Intn(100); {
			case small && x > 2:
				it := g.Damaged()
				for len(it.Wire) > 400 {
					it = g.Damaged()
				}
				items = append(items, it)
			case x < 5:
				items = append(items, g.Response())
			case x < 60:
				for k := 1 + rng.Intn(3); k > 0; k-- {
					items = append(items, g.Damaged())
				}
			default:
				items = append(items, g.Data())
			}
		}
		items = append(items, g.Sentinel())
		how := rng.Intn(4)
		got, err := drive(r, s.Addr, rng, items, how)
		at, key, msg := judgeAcks(items, got, false, true)
		rep := caseOf(items, max(at, 0), got, hows[how])
		if at >= 0 && !(key == "no reply" && err != nil) {
			r.Violate(key, msg, rep)
			return
		}
		if err != nil {
			trouble(r, err, "session ends early: "+msg, rep)
			return
		}
		sv := rec.Take()
		if d := diffFlat(flatten(exps(sv)), flatten(expected(items))); d != "" {
			r.Violate("exports next to damaged packets", d, rep)
			return
		}
		for k, it := range items {
			if it.Kind == "damaged" {
				r.Count("damaged packets answered", 1)
				r.Count("damage: "+class(it.What), 1)
				r.EvalBytes(it.Wire, true)
			} else {
				r.Count("packets around them processed", 1)
				r.Eval(fmt.Sprint(it.sig(), k))
			}
		}
		if i < 3 {
			r.Sample(rep)
		}
	})
	fleet(r, "unframeable", r.Scale(320, 4000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		before := traffic(g, i, rng.Intn(8), true)
		before = append(before, g.Sentinel())
		c, err := Dial(s.Addr)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer c.Close()
		need := 0
		for _, it := range before {
			if it.Kind != "response" {
				need++
			}
		}
		// read everything of before first: a close may cut off replies on their way
		last := before[len(before)-1].PID
		got, err := Exchange(c, Segment(rng, before, rng.Intn(3)), 0, func(x []Reply) bool {
			return responses(x) >= need && len(x) > 0 && x[len(x)-1].P != nil && x[len(x)-1].P.RPID == last
		})
		if err != nil {
			trouble(r, err, "session ends early", caseOf(before, 0, got, nil))
			return
		}
		bad := g.Sized(60 + rng.Intn(300))
		w := append([]byte(nil), bad.Wire...)
		hl := bad.P.HL()
		kind := ""
		switch i % 8 {
		case 0: // other versions
			w[0] = byte(2 + rng.Intn(254))
			w[hl-1] = ref.CRC8(w[:hl-1])
			kind = "protocol version"
		case 1:
			w[0] = 0
			w[hl-1] = ref.CRC8(w[:hl-1])
			kind = "protocol version 0"
		case 2: // header too short
			w[3] = byte(rng.Intn(11))
			w[hl-1] = ref.CRC8(w[:hl-1])
			kind = "header length below 11"
		case 3: // ... without a body
			w[3] = byte(rng.Intn(11))
			w[5], w[6] = 0, 0
			w[10] = ref.CRC8(w[:10])
			kind = "header length below 11, no body"
		case 4:
			w[3] = []byte{0, 1, 2, 3, 5, 6, 7, 8, 9, 10}[rng.Intn(10)] // with 4 the checksum would take the place of HL
			if w[3] > 0 {
				w[w[3]-1] = ref.CRC8(w[:w[3]-1])
			}
			kind = "header length below 11, checksum in its place"
		case 5:
			rng.Read(w)
			for w[0] == 1 {
				w[0] = byte(rng.Intn(256))
			}
			kind = "noise"
		case 6:
			w = []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
			kind = "http"
		case 7:
			w[3] = byte([]int{0, 9, 10}[rng.Intn(3)])
			w[5], w[6] = 255, 255
			kind = "header length below 11, long body"
		}
		var after []*Item
		for k := 0; k < 1+rng.Intn(4); k++ {
			after = append(after, g.Sized(60+rng.Intn(900)))
		}
		b := append(w, stream(after)...)
		werr := c.Write(b) // may fail: the server may be gone already
		_ = werr
		var more []Reply
		for {
			p, raw, err := c.Next(Patience)
			if err == nil {
				more = append(more, Reply{P: p, Raw: raw})
				continue
			}
			var br badReply
			if errors.As(err, &br) && !br.frame {
				err = br.err
			}
			if errors.Is(err, errTimeout) {
				rep := map[string]any{"kind": kind, "bytes": fmt.Sprintf("%x", w), "before": len(before), "after": len(after)}
				if Starved(5 * time.Second) {
					r.Inconclusive("unframeable input: connection still open, but this machine did not get to run")
				} else {
					r.Violate("connection stays open after unframeable input", kind, rep)
				}
				return
			}
			break
		}
		for _, m := range more {
			for _, it := range append(after, bad) {
				if m.P.PT == ref.PtResponse && m.P.Result == 0 && m.P.RPID == it.PID {
					r.Violate("packet behind unframeable input acknowledged", kind+": "+m.String(), fmt.Sprintf("%x", b))
					return
				}
			}
		}
		// nothing more can arrive at the storage once the connection is closed by the server
		if d := diffFlat(flatten(exps(rec.Take())), flatten(expected(before))); d != "" {
			r.Violate("exports with unframeable input", kind+": "+d, map[string]any{"bytes": fmt.Sprintf("%x", b), "before": caseOf(before, 0, got, nil)})
			return
		}
		r.Count("unframeable streams closed", 1)
		r.Eval(kind + string(w[:10]))
	})
}

func class(what string) string {
	for i, c := range what {
		if c >= '0' && c <= '9' {
			return what[:i]
		}
	}
	return what
}
