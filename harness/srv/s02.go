package srv

import (
	"fmt"
	"math/rand"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

// drive sends the items over a connection of its own in one of several ways.
func drive(r *h.Run, addr string, rng *rand.Rand, items []*Item, how int) ([]Reply, error) {
	c, err := Dial(addr)
	if err != nil {
		return nil, err
	}
	defer c.Close()
	need := 0
	for _, it := range items {
		if it.Kind != "response" {
			need++
		}
	}
	if how == 3 {
		return Lockstep(c, items, 3*time.Millisecond, nil)
	}
	seen, n := 0, 0
	cs := Segment(rng, items, how)
	if len(items)%4 == 1 {
		cs = append(cs, Chunk{Pause: -1})
		r.Count("sessions whose peer ends its side at once", 1)
	}
	return Exchange(c, cs, 3*time.Millisecond, func(g []Reply) bool {
		n += responses(g[seen:])
		seen = len(g)
		return n >= need
	})
}

var hows = []string{"a write per packet", "one write", "random pieces", "lockstep"}

// judgeAcks compares the PT_RESPONSE packets received with the packets sent.
// It returns the index of the item it objects to, or -1.
func judgeAcks(items []*Item, got []Reply, data, damaged bool) (at int, key, msg string) {
	k := 0
	next := func() *Reply {
		for k < len(got) {
			g := &got[k]
			k++
			if g.P == nil || g.P.PT == ref.PtResponse {
				return g
			}
		}
		return nil
	}
	for i, it := range items {
		if it.Kind == "response" {
			continue
		}
		g := next()
		switch {
		case g == nil:
			return i, "no reply", fmt.Sprintf("packet %d (id %d, %s %s) got no reply", i, it.PID, it.Kind, it.What)
		case g.P == nil:
			return i, "invalid reply", fmt.Sprintf("packet %d (id %d, %s %s): invalid reply: %v", i, it.PID, it.Kind, it.What, g.Err)
		case g.P.RPID != it.PID:
			return i, "reply names another packet", fmt.Sprintf("packet %d has id %d, the next reply is for id %d", i, it.PID, g.P.RPID)
		}
		if it.Kind == "damaged" {
			if damaged && (g.P.Result == 0 || len(it.Codes) > 0 && !it.Codes[g.P.Result]) {
				return i, "damaged packet: result code", fmt.Sprintf("packet %d (%s) is answered with %d, want one of %v", i, it.What, g.P.Result, it.Codes)
			}
			continue
		}
		if !data {
			if g.P.Result != 0 {
				return i, "intact packet refused", fmt.Sprintf("packet %d (id %d) is answered with result %d", i, it.PID, g.P.Result)
			}
			continue
		}
		if g.P.Result != 0 {
			return i, "processing result", fmt.Sprintf("packet %d (id %d): result %d", i, it.PID, g.P.Result)
		}
		for _, x := range g.P.Records {
			for _, svc := range []byte{x.SST, x.RST} {
				from := len(it.P.Records) == 0
				for _, y := range it.P.Records {
					from = from || y.SST == svc || y.RST == svc
				}
				if !from {
					return i, "service of the confirmations", fmt.Sprintf("packet %d (id %d): the confirming record names service %d, which no record of the packet names", i, it.PID, svc)
				}
			}
		}
		rn, st, err := confirmed(g.P)
		if err != nil {
			return i, "reply content", fmt.Sprintf("packet %d: %v", i, err)
		}
		if len(rn) != len(it.P.Records) {
			return i, "confirmations", fmt.Sprintf("packet %d (id %d) has %d records, %d are confirmed", i, it.PID, len(it.P.Records), len(rn))
		}
		for j := range rn {
			if rn[j] != it.P.Records[j].RN {
				return i, "confirmations", fmt.Sprintf("packet %d record %d has number %d, confirmed is %d", i, j, it.P.Records[j].RN, rn[j])
			}
			if st[j] != 0 {
				return i, "record status", fmt.Sprintf("packet %d record %d: status %d", i, j, st[j])
			}
		}
	}
	if g := next(); g != nil {
		return len(items) - 1, "surplus reply", "more replies than packets: " + g.String()
	}
	return -1, "", ""
}

// S02 - every data packet gets exactly one matching acknowledgement.
func S02(r *h.Run) {
	r.Rule = "one evaluation per packet sent; distinct: shape (record flags, subrecord types, routing), id and position in its stream; nontrivial if it has records or is a PT_RESPONSE"
	fleet(r, "acks", r.Scale(240, 6000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		var items []*Item
		how := rng.Intn(4)
		switch i % 12 {
		case 0: // body sizes at the usual limits
			for k := 0; k < 12; k++ {
				items = append(items, g.Sized(edges[(i/12*12+k)%len(edges)]))
			}
		case 1: // replies that get long
			for _, n := range []int{42, 43, 170, 171, 1000, 5460, 5461, 5462, 5900 + rng.Intn(50)}[rng.Intn(7):] {
				items = append(items, g.Confirm(n))
			}
			items = append(items, g.Empties(9000+rng.Intn(350)), g.Crowd(1872))
		case 2: // a long session across the id wrap
			g.PID = 65535 - uint16(rng.Intn(700))
			items = traffic(g, i, 1500, false)
		case 3: // retransmissions: the same packet again
			for k := 0; k < 40; k++ {
				it := g.Data()
				for j := 1 + rng.Intn(3); j > 0; j-- {
					items = append(items, it)
				}
			}
		case 4: // mostly confirmations from the peer
			for k := 0; k < 120; k++ {
				if rng.Intn(5) == 0 {
					items = append(items, g.Data())
				} else {
					items = append(items, g.Response())
				}
			}
		default:
			items = traffic(g, i, 10+rng.Intn(110), false)
		}
		if i == 7 || r.Thorough && i%400 == 19 { // a session that goes through all ids
			items, how = nil, rng.Intn(2)
			for k := 66000 + rng.Intn(r.Scale(6000, 90000)); k > 0; k-- {
				items = append(items, g.Sentinel())
			}
			r.Count("sessions of more than 65536 packets", 1)
		}
		items = append(items, g.Sentinel())
		got, err := drive(r, s.Addr, rng, items, how)
		at, key, msg := judgeAcks(items, got, true, false)
		rep := caseOf(items, max(at, 0), got, hows[how])
		if at >= 0 && !(key == "no reply" && err != nil) {
			r.Violate(key, msg, rep)
			return
		}
		if err != nil {
			trouble(r, err, "session ends early: "+msg, rep)
			return
		}
		// the peer's confirmations must not have been stored
		own := map[string]bool{}
		for _, it := range items {
			if it.Kind == "response" {
				for _, d := range positionTimes(it.P) {
					own[d] = true
				}
			}
		}
		for _, sv := range rec.Take() {
			for _, l := range sv.E.Loc {
				if own[l.Dt] {
					r.Violate("content of a PT_RESPONSE stored", string(sv.Raw), rep)
				}
			}
		}
		for k, it := range items {
			if it.Kind == "response" {
				r.Count("PT_RESPONSE packets sent", 1)
			} else {
				r.Count("acknowledgements checked", 1)
				r.Count("records confirmed", int64(len(it.P.Records)))
			}
			r.Eval(fmt.Sprint(it.sig(), it.PID, k))
		}
		r.Count("sessions "+hows[how], 1)
		if i < 3 {
			r.Sample(rep)
		}
	})
}

func positionTimes(p *ref.Packet) (out []string) {
	for i := range p.Records {
		for _, s := range p.Records[i].Subs {
			if v, ok := s.V.(*ref.Pos); ok {
				out = append(out, ntmString(v.NTM))
			}
		}
	}
	return
}

func ntmString(n uint32) string {
	return time.Unix(1262304000+int64(n), 0).UTC().Format("2006-01-02T15:04:05Z")
}

// S11 - terminals that identify themselves get one positive result code.
func S11(r *h.Run) {
	r.Rule = "one evaluation per packet sent; distinct: shape and position in its stream; nontrivial if it identifies a terminal or follows one that does"
	fleet(r, "result codes", r.Scale(260, 6000), func(i int, rng *rand.Rand, s *Server, rec *Recorder) {
		g := NewGen(rng)
		g.Auth = []int{0, 30, 60, 100}[i%4]
		items := traffic(g, i, 10+rng.Intn(100), i%5 == 4)
		if i%6 == 0 { // identification alone, the way terminals start
			items = append([]*Item{g.Identify(i / 6)}, items...)
		}
		if i%6 == 1 { // identification in every place of larger packets
			for k := 0; k < 30; k++ {
				items = append(items, g.IdentifyWithin())
			}
		}
		items = append(items, g.Sentinel())
		how := rng.Intn(4)
		var got []Reply
		var err error
		if i%7 > 4 { // who it is has nothing to do with whether its data can be stored
			rec.Every.Store(int64(i%7 - 4))
		}
		if i%3 == 0 { // a terminal that confirms each result code packet
			got, items, err = confirming(s.Addr, g, items)
			how = 3
		} else {
			got, err = drive(r, s.Addr, rng, items, how)
		}
		rep := caseOf(items, 0, got, hows[how])
		k := 0
		for j, it := range items {
			if it.Kind != "response" {
				for k < len(got) && got[k].P != nil && got[k].P.PT != ref.PtResponse {
					r.Violate("result code without PT_RESPONSE before it", fmt.Sprintf("before the reply to packet %d: %s", j, got[k]), caseOf(items, j, got[:k+1], nil))
					return
				}
				if k >= len(got) {
					if err != nil {
						trouble(r, err, "session ends early", rep)
					} else {
						r.Violate("no reply", fmt.Sprintf("packet %d", j), rep)
					}
					return
				}
				if got[k].P == nil && got[k].Err != nil {
					r.Violate("invalid frame", got[k].String(), caseOf(items, j, got[:k+1], nil))
					return
				}
				if got[k].P.RPID != it.PID {
					r.Violate("replies out of step", fmt.Sprintf("packet %d has id %d, reply is for %d", j, it.PID, got[k].P.RPID), caseOf(items, j, got[:k+1], nil))
					return
				}
				k++
			}
			n := 0
			for k < len(got) && (got[k].P == nil || got[k].P.PT != ref.PtResponse) {
				if msg := badResult(&got[k]); msg != "" {
					r.Violate("result code packet: "+msg, got[k].String(), caseOf(items, j, got[:k+1], nil))
					return
				}
				n++
				k++
			}
			want := 0
			if it.Result {
				want = 1
			}
			if n != want {
				r.Violate("number of result code packets", fmt.Sprintf("packet %d (id %d, %s): %d result code packets, want %d", j, it.PID, it.sig(), n, want), caseOf(items, j, got[:min(k+1, len(got))], nil))
				return
			}
			r.Eval(fmt.Sprint(it.sig(), j))
			if want == 1 {
				r.Count("identifications answered", 1)
				if len(it.Exports) > 0 && rec.Every.Load() > 0 {
					r.Count("identifications answered while storing failed", 1)
				}
			} else if it.Kind != "response" {
				r.Count("packets without identification", 1)
			} else {
				r.Count("confirmations accepted", 1)
			}
		}
		if k != len(got) || err != nil {
			trouble(r, err, "session ends early", rep)
			if k != len(got) {
				r.Violate("surplus reply", got[k].String(), rep)
			}
		}
		if i < 3 {
			r.Sample(rep)
		}
	})
}

// badResult tells what is wrong with a result code packet.
func badResult(g *Reply) string {
	switch {
	case g.P == nil:
		return "invalid packet"
	case g.P.PT != ref.PtAppdata:
		return fmt.Sprintf("packet type %d", g.P.PT)
	case len(g.P.Records) != 1:
		return fmt.Sprintf("%d records", len(g.P.Records))
	}
	rec := g.P.Records[0]
	switch {
	case rec.SST != 1 || rec.RST != 1:
		return fmt.Sprintf("services %d/%d", rec.SST, rec.RST)
	case len(rec.Subs) != 1 || rec.Subs[0].Type != ref.TResult:
		return "subrecords"
	}
	if w := rec.Subs[0].V.Wire(); len(w) != 1 || w[0] != 0 {
		return fmt.Sprintf("content % x", w)
	}
	return ""
}

// confirming plays a terminal that confirms each packet it is sent.
func confirming(addr string, g *Gen, items []*Item) (got []Reply, sent []*Item, err error) {
	c, err := Dial(addr)
	if err != nil {
		return nil, items, err
	}
	defer c.Close()
	for i, it := range items {
		need, seen := 1, 0
		if it.Kind == "response" {
			need = 0
		}
		if it.Result {
			need++
		}
		grace := time.Duration(0)
		if i == len(items)-1 {
			grace = 3 * time.Millisecond
		}
		x, err := Exchange(c, []Chunk{{B: it.Wire}}, grace, func(x []Reply) bool { return len(x) >= need })
		got = append(got, x...)
		sent = append(sent, it)
		if err != nil {
			return got, sent, err
		}
		for _, y := range x {
			if y.P == nil || y.P.PT == ref.PtResponse {
				continue
			}
			seen++
			p := g.header()
			p.PT, p.RPID, p.Result = ref.PtResponse, y.P.PID, 0
			for _, rec := range y.P.Records {
				p.Records = append(p.Records, ref.Record{RN: uint16(g.R.Uint32()), SST: 1, RST: 1,
					Subs: []ref.Sub{{Type: ref.TResponse, V: ref.Raw{B: []byte{byte(rec.RN), byte(rec.RN >> 8), 0}}}}})
			}
			cf := &Item{Wire: p.Wire(), Kind: "response", P: p, PID: p.PID, What: "confirms a result code"}
			if err := c.Write(cf.Wire); err != nil {
				return got, sent, err
			}
			sent = append(sent, cf)
		}
	}
	return got, sent, nil
}
