package srv

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"time"

	"verif/harness/conv"
	"verif/harness/ref"
)

// Item is one frame of a stream with what it must lead to.
type Item struct {
	Wire    []byte
	Kind    string // "data", "response", "damaged"
	P       *ref.Packet
	What    string
	PID     uint16
	Codes   map[uint8]bool // damaged: allowed result codes; empty means any but 0
	Exports []Exp          // data: what must be handed to storage
	Result  bool           // data: a result code packet must follow
}

func (it *Item) sig() string {
	s := it.Kind + ":" + it.What
	if it.P != nil {
		for i := range it.P.Records {
			s += fmt.Sprintf(";%02x", it.P.Records[i].Flags()&7)
			for _, x := range it.P.Records[i].Subs {
				s += fmt.Sprintf(",%d", x.Type)
			}
			if len(s) > 300 {
				break
			}
		}
		s += fmt.Sprintf("/%d/%d", it.P.RTE, len(it.P.Records))
	}
	return s
}

func (it *Item) describe() map[string]any {
	w := it.Wire
	more := ""
	if len(w) > 3000 {
		w, more = w[:3000], fmt.Sprintf("... %d bytes", len(it.Wire))
	}
	return map[string]any{"kind": it.Kind, "what": it.What, "pid": it.PID, "wire": hex.EncodeToString(w) + more, "shape": it.sig()}
}

// Gen makes traffic. Everything is drawn from R.
type Gen struct {
	R       *rand.Rand
	PID     uint16 // next packet id
	OIDBase uint32 // object ids are drawn from OIDBase+0..3 (any, if NoBase)
	AnyOID  bool
	NeedOID bool // every packet with positions names its object
	ntm     uint32
	mix     uint32 // how navigation times follow each other
	Twins   bool   // positions of a record may share their time, packets their id
	Auth    int    // percent of packets that identify the terminal
}

func NewGen(r *rand.Rand) *Gen {
	return &Gen{R: r, PID: uint16(ref.Bound(r, 16)), AnyOID: true, ntm: uint32(r.Intn(16))<<28 + uint32(r.Intn(1<<27)), mix: uint32(r.Intn(4)), Auth: 12}
}

// Clock sets where the navigation times start.
func (g *Gen) Clock(n uint32) { g.ntm = n }

func (g *Gen) oid() uint32 {
	if !g.AnyOID {
		return g.OIDBase + uint32(g.R.Intn(4))
	}
	switch g.R.Intn(8) {
	case 0:
		return uint32(ref.Bound(g.R, 32))
	case 1:
		return 0
	default:
		return 133550 + uint32(g.R.Intn(3))
	}
}

func (g *Gen) pos() *ref.Pos {
	p := ref.RandPos(g.R)
	// navigation times are unique, so that an export can be traced to its position
	g.ntm++
	p.NTM = g.ntm
	// terminals send what they have stored in any order: blocks of 4096 are permuted
	low := g.ntm & 0xFFF
	switch g.mix {
	case 1: // backwards
		low = 0xFFF - low
	case 2: // jumping about
		low = low * 2477 & 0xFFF
	}
	p.NTM = g.ntm&^0xFFF | low
	return p
}

var noise = []byte{ref.TResponse, ref.TResult, ref.TDisp, ref.TPlus, ref.TExtPos, ref.TCounters, ref.TState20, ref.TState}

// telemetry makes the subrecords of a record; counters decides on the packet number counters.
func (g *Gen) telemetry(pos int, counters int) []ref.Sub {
	r := g.R
	var out []ref.Sub
	add := func(t byte) { out = append(out, ref.Sub{Type: t, V: ref.RandValue(r, t)}) }
	other := func() {
		for k := r.Intn(3); k > 0; k-- {
			switch r.Intn(5) {
			case 0:
				add(ref.TAdSens)
			case 1:
				add(ref.TAbsAn)
			case 2:
				l := ref.RandValue(r, ref.TLiquid).(*ref.Liquid)
				if l.LLSVU == 3 {
					l.LLSVU = byte(r.Intn(3))
				}
				out = append(out, ref.Sub{Type: ref.TLiquid, V: l})
			case 3:
				c := ref.RandValue(r, ref.TAbsCntr).(*ref.AbsCntr)
				for c.CN == 110 || c.CN == 111 {
					c.CN = byte(r.Uint32())
				}
				out = append(out, ref.Sub{Type: ref.TAbsCntr, V: c})
			default:
				add(noise[r.Intn(len(noise))])
			}
		}
	}
	other()
	var last *ref.Pos
	for ; pos > 0; pos-- {
		p := g.pos()
		if g.Twins && last != nil {
			switch r.Intn(8) {
			case 0: // two positions of the same second
				p.NTM = last.NTM
			case 1: // the same position twice
				*p = *last
			}
		}
		last = p
		out = append(out, ref.Sub{Type: ref.TPos, V: p})
		other()
	}
	n110 := &ref.AbsCntr{CN: 110, CNV: uint32(ref.Bound(r, 24))}
	n111 := &ref.AbsCntr{CN: 111, CNV: uint32(ref.Bound(r, 8))}
	if r.Intn(4) == 0 {
		n111.CNV = uint32(ref.Bound(r, 24)) // only the low byte counts
	}
	switch counters {
	case 1:
		out = append(out, ref.Sub{Type: ref.TAbsCntr, V: n110})
		if r.Intn(2) == 0 {
			other()
		}
		out = append(out, ref.Sub{Type: ref.TAbsCntr, V: n111})
	case 2:
		out = append([]ref.Sub{{Type: ref.TAbsCntr, V: n111}, {Type: ref.TAbsCntr, V: n110}}, out...)
	case 3:
		out = append(out, ref.Sub{Type: ref.TAbsCntr, V: n110})
	}
	return out
}

func (g *Gen) header() *ref.Packet {
	p := ref.RandHeader(g.R)
	p.PRV = 1
	p.PID = g.PID
	if !g.Twins || g.R.Intn(12) > 0 {
		g.PID++
	}
	return p
}

// Data makes a well formed PT_APPDATA packet with its expectation.
func (g *Gen) Data() *Item {
	r := g.R
	p := g.header()
	what := ""
	nrec := []int{1, 1, 1, 1, 2, 2, 3, 4, 7}[r.Intn(9)]
	mode := r.Intn(10)
	switch {
	case r.Intn(40) == 0:
		nrec, what = 0, "no records"
	case r.Intn(60) == 0:
		nrec, what = 20+r.Intn(200), "many records"
	}
	counters := 0
	switch r.Intn(6) {
	case 0, 1:
		counters = 1
	case 2:
		counters = 2
	case 3:
		if nrec == 1 {
			counters = 3
		}
	}
	auth := nrec > 0 && r.Intn(100) < g.Auth
	if g.NeedOID && mode == 0 {
		mode = 5
	}
	for i := 0; i < nrec; i++ {
		rec := ref.RandRecord(r, nil, 0)
		rec.OBFE = false
		npos := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]
		switch {
		case mode == 0: // nobody names an object
		case mode <= 3: // every record does
			rec.OBFE = true
		case mode <= 8: // the first does, later ones may
			rec.OBFE = i == 0 || r.Intn(2) == 0
		default: // identification first, telemetry after it
			rec.OBFE = i > 0
			if i == 0 {
				npos = 0
			}
		}
		rec.OID = 0
		if rec.OBFE {
			rec.OID = g.oid()
		}
		if i == 0 && auth || mode == 9 && i == 0 && r.Intn(2) == 0 {
			if r.Intn(3) > 0 {
				t := ref.RandTerm(r)
				if t.IMEIE == 1 {
					t.IMEI = ref.Digits(r, 15)
				}
				rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TTerm, V: t})
			} else {
				rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TAuth, V: ref.RandValue(r, ref.TAuth)})
			}
			if r.Intn(4) == 0 {
				rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TAuth, V: ref.RandValue(r, ref.TAuth)})
			}
			if r.Intn(2) == 0 && mode != 9 {
				npos = 0
			}
			if npos == 0 && r.Intn(2) == 0 {
				p.Records = append(p.Records, rec)
				continue
			}
		}
		rec.Subs = append(rec.Subs, g.telemetry(npos, counters)...)
		p.Records = append(p.Records, rec)
		if len(p.Body()) > 60000 {
			p.Records = p.Records[:len(p.Records)-1]
			break
		}
	}
	return g.finish(p, what)
}

// Sized makes a packet with one position whose body has exactly n bytes (n >= 60).
func (g *Gen) Sized(n int) *Item {
	p := g.header()
	rec := ref.RandRecord(g.R, nil, 0)
	rec.OBFE, rec.OID = true, g.oid()
	pos := g.pos()
	rec.Subs = []ref.Sub{{Type: ref.TPos, V: pos}}
	p.Records = []ref.Record{rec}
	fill := n - len(p.Body()) - 8
	if fill < 0 {
		panic("srv: size too small")
	}
	p.Records[0].Subs = append(p.Records[0].Subs, ref.Sub{Type: ref.TDisp, V: &ref.Disp{DT: 1, DID: 2, DSCR: ref.Str(g.R, fill)}})
	if len(p.Body()) != n {
		panic("srv: sized packet")
	}
	return g.finish(p, fmt.Sprintf("body of %d bytes", n))
}

// Many makes a packet with n records in total, each with one position.
func (g *Gen) Many(n int) *Item {
	p := g.header()
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(g.R, nil, 0)
		rec.TMFE, rec.EVFE, rec.TM, rec.EVID = false, false, 0, 0
		rec.OBFE, rec.OID = i == 0, 0
		if i == 0 {
			rec.OID = g.oid()
		}
		pos := g.pos()
		pos.ALTE, pos.ALT, pos.SRCD = 0, 0, nil
		rec.Subs = []ref.Sub{{Type: ref.TPos, V: pos}}
		p.Records = append(p.Records, rec)
	}
	return g.finish(p, fmt.Sprintf("%d records with positions", n))
}

// Crowd makes a packet with a position each of n objects, 1872 at most.
func (g *Gen) Crowd(n int) *Item {
	p := g.header()
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(g.R, nil, 0)
		rec.TMFE, rec.EVFE, rec.TM, rec.EVID = false, false, 0, 0
		rec.OBFE, rec.OID = true, 5000000+uint32(i)*7919
		pos := g.pos()
		pos.ALTE, pos.ALT, pos.SRCD = 0, 0, nil
		rec.Subs = []ref.Sub{{Type: ref.TPos, V: pos}}
		p.Records = append(p.Records, rec)
	}
	return g.finish(p, fmt.Sprintf("%d objects", n))
}

// Bulk makes a packet whose single record holds as many values of a kind as fit into n bytes.
func (g *Gen) Bulk(n int) *Item {
	r := g.R
	p := g.header()
	rec := ref.RandRecord(r, nil, 0)
	rec.OBFE, rec.OID = true, g.oid()
	kind := r.Intn(5)
	room := n - len(rec.Wire())
	var subs []ref.Sub
	add := func(s ref.Sub) {
		if room -= 3 + len(s.V.Wire()); room >= 0 {
			subs = append(subs, s)
		}
	}
	pos := func() {
		x := g.pos()
		x.ALTE, x.ALT, x.SRCD = 0, 0, nil
		add(ref.Sub{Type: ref.TPos, V: x})
	}
	pos()
	for room > 0 {
		k := kind
		if k == 4 {
			k = r.Intn(4)
		}
		switch k {
		case 0:
			pos()
		case 1:
			add(ref.Sub{Type: ref.TAbsAn, V: ref.RandValue(r, ref.TAbsAn)})
		case 2:
			l := ref.RandValue(r, ref.TLiquid).(*ref.Liquid)
			if l.LLSVU == 3 {
				l.LLSVU = byte(r.Intn(3))
			}
			add(ref.Sub{Type: ref.TLiquid, V: l})
		case 3:
			add(ref.Sub{Type: ref.TAdSens, V: ref.RandValue(r, ref.TAdSens)})
		}
	}
	rec.Subs = subs
	p.Records = []ref.Record{rec}
	return g.finish(p, fmt.Sprintf("bulk of kind %d", kind))
}

// Empty makes a packet with n records that hold nothing but one result code (so that the reply gets long).
func (g *Gen) Confirm(n int) *Item {
	p := g.header()
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(g.R, nil, 0)
		rec.TMFE, rec.EVFE, rec.OBFE, rec.TM, rec.EVID, rec.OID = false, false, false, 0, 0, 0
		rec.Subs = []ref.Sub{{Type: ref.TResult, V: &ref.Result{}}}
		p.Records = append(p.Records, rec)
	}
	return g.finish(p, fmt.Sprintf("%d records without positions", n))
}

// Response makes a well formed PT_RESPONSE packet, the way terminals confirm.
func (g *Gen) Response() *Item {
	r := g.R
	p := g.header()
	p.PT, p.RPID, p.Result = ref.PtResponse, uint16(ref.Bound(r, 16)), 0
	if r.Intn(4) == 0 {
		p.Result = byte(ref.Bound(r, 8))
	}
	for k := r.Intn(3); k > 0; k-- {
		rec := ref.RandRecord(r, nil, 0)
		for j := 1 + r.Intn(3); j > 0; j-- {
			rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TResponse, V: ref.RandValue(r, ref.TResponse)})
		}
		if r.Intn(4) == 0 { // telemetry does not belong here and must not be stored
			rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TPos, V: g.pos()})
		}
		p.Records = append(p.Records, rec)
	}
	return &Item{Wire: p.Wire(), Kind: "response", P: p, PID: p.PID}
}

func (g *Gen) finish(p *ref.Packet, what string) *Item {
	it := &Item{Wire: p.Wire(), Kind: "data", P: p, PID: p.PID, What: what}
	it.Exports, it.Result = Expect(p)
	return it
}

// Sentinel is a small packet without positions that ends a batch.
func (g *Gen) Sentinel() *Item {
	p := g.header()
	rec := ref.Record{RN: uint16(g.R.Uint32()), SST: 2, RST: 2, Subs: []ref.Sub{{Type: ref.TState, V: &ref.State{ST: 1}}}}
	p.Records = []ref.Record{rec}
	return g.finish(p, "sentinel")
}

// Expect is the specification of the export: what a packet must lead to.
func Expect(p *ref.Packet) (out []Exp, result bool) {
	cur := Exp{PacketID: uint32(p.PID)}
	known := false
	flush := func() {
		if len(cur.Loc) > 0 {
			cur.Count = len(cur.Loc)
			out = append(out, cur)
		}
	}
	for i := range p.Records {
		rec := &p.Records[i]
		if rec.OBFE {
			if known && cur.ClientID != rec.OID {
				flush()
				cur = Exp{PacketID: uint32(p.PID), IMEI: cur.IMEI}
			}
			cur.ClientID, known = rec.OID, true
		}
		low, high := -1, -1
		for _, s := range rec.Subs {
			switch v := s.V.(type) {
			case *ref.Auth:
				result = true
			case *ref.Term:
				result = true
				cur.IMEI = v.IMEI
			case *ref.Pos:
				t := time.Unix(1262304000+int64(v.NTM), 0).UTC() // 2010-01-01
				cur.Nav = t.Unix()
				l := ExpLoc{Lat: conv.Lat(v.LAT), Lng: conv.Lon(v.LON), Speed: v.SPD / 10, Dt: t.Format("2006-01-02T15:04:05Z")}
				if v.LAHS == 1 {
					l.Lat = -l.Lat
				}
				if v.LOHS == 1 {
					l.Lng = -l.Lng
				}
				cur.Loc = append(cur.Loc, l)
			case *ref.AdSens:
				for k := 0; k < 8; k++ {
					if v.ASFE>>k&1 == 1 {
						cur.An = append(cur.An, ExpAn{uint8(k + 1), v.ANS[k]})
					}
				}
			case *ref.AbsAn:
				cur.An = append(cur.An, ExpAn{v.ASN, v.ASV})
			case *ref.AbsCntr:
				switch v.CN {
				case 110:
					low = int(v.CNV & 0xFFFFFF)
				case 111:
					high = int(v.CNV & 0xFF)
				}
			case *ref.Liquid:
				l := ExpLiq{N: v.LLSN, M: v.MADDR, Err: fmt.Sprint(v.LLSEF), Unit: fmt.Sprintf("%02b", v.LLSVU)}
				switch v.LLSVU {
				case 0, 1:
					l.Mm = v.LLSD
				case 2:
					l.L = float64(v.LLSD) / 10
				}
				cur.Liquid = append(cur.Liquid, l)
			}
		}
		if low >= 0 {
			cur.PacketID = uint32(low)
			if high >= 0 {
				cur.PacketID |= uint32(high) << 24
			}
		}
	}
	flush()
	return out, result
}

func feq(a, b float64) bool { return math.Abs(a-b) <= 1e-9 }

// DiffExp compares an export with its expectation, content only.
func DiffExp(got, want *Exp) string {
	if got.IMEI != want.IMEI {
		return fmt.Sprintf("IMEI: got %q, want %q", got.IMEI, want.IMEI)
	}
	if got.ClientID != want.ClientID {
		return fmt.Sprintf("client_id: got %d, want %d", got.ClientID, want.ClientID)
	}
	if got.PacketID != want.PacketID {
		return fmt.Sprintf("packet_id: got %d, want %d", got.PacketID, want.PacketID)
	}
	if got.Nav != want.Nav {
		return fmt.Sprintf("navigation_unix_time: got %d, want %d", got.Nav, want.Nav)
	}
	if len(got.An) != len(want.An) {
		return fmt.Sprintf("an_sensors: got %d, want %d", len(got.An), len(want.An))
	}
	for i := range got.An {
		if got.An[i] != want.An[i] {
			return fmt.Sprintf("an_sensors[%d]: got %+v, want %+v", i, got.An[i], want.An[i])
		}
	}
	if len(got.Liquid) != len(want.Liquid) {
		return fmt.Sprintf("liquid_sensors: got %d, want %d", len(got.Liquid), len(want.Liquid))
	}
	for i := range got.Liquid {
		a, b := got.Liquid[i], want.Liquid[i]
		if a.N != b.N || a.M != b.M || a.Err != b.Err || a.Unit != b.Unit || a.Mm != b.Mm || !feq(a.L, b.L) {
			return fmt.Sprintf("liquid_sensors[%d]: got %+v, want %+v", i, a, b)
		}
	}
	return DiffLoc(got, want)
}

// DiffLoc compares the positions.
func DiffLoc(got, want *Exp) string {
	if len(got.Loc) != len(want.Loc) {
		return fmt.Sprintf("loc_states: got %d, want %d", len(got.Loc), len(want.Loc))
	}
	for i := range got.Loc {
		a, b := got.Loc[i], want.Loc[i]
		if !feq(a.Lat, b.Lat) || !feq(a.Lng, b.Lng) || a.Speed != b.Speed || a.Dt != b.Dt {
			return fmt.Sprintf("loc_states[%d]: got %+v, want %+v", i, a, b)
		}
	}
	if got.Count != len(want.Loc) {
		return fmt.Sprintf("loc_states_count: got %d, want %d", got.Count, len(want.Loc))
	}
	return ""
}

// Empties makes a packet with n records without any subrecords (record length 0).
func (g *Gen) Empties(n int) *Item {
	p := g.header()
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(g.R, nil, 0)
		rec.TMFE, rec.EVFE, rec.OBFE, rec.TM, rec.EVID, rec.OID = false, false, false, 0, 0, 0
		rec.Subs = nil
		p.Records = append(p.Records, rec)
	}
	return g.finish(p, fmt.Sprintf("%d empty records", n))
}

// Identify makes a packet that does nothing but identify the terminal; k picks the kind.
func (g *Gen) Identify(k int) *Item {
	p := g.header()
	rec := ref.Record{RN: uint16(g.R.Uint32()), SST: 1, RST: 1}
	var v ref.Sub
	if k%4 == 3 {
		v = ref.Sub{Type: ref.TAuth, V: ref.RandValue(g.R, ref.TAuth)}
	} else {
		v = ref.Sub{Type: ref.TTerm, V: ref.RandTerm(g.R)}
	}
	rec.Subs = []ref.Sub{v}
	p.Records = []ref.Record{rec}
	return g.finish(p, "identification")
}

// IdentifyWithin makes a packet in which one or more of the records identify
// the terminal, at any place.
func (g *Gen) IdentifyWithin() *Item {
	r := g.R
	p := g.header()
	n := 1 + r.Intn(5)
	oid := g.oid()
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(r, nil, 0)
		rec.OBFE, rec.OID = true, oid
		for k := r.Intn(3); k > 0; k-- {
			switch r.Intn(3) {
			case 0:
				rec.Subs = append(rec.Subs, ref.Sub{Type: ref.TPos, V: g.pos()})
			default:
				t := noise[r.Intn(len(noise))]
				rec.Subs = append(rec.Subs, ref.Sub{Type: t, V: ref.RandValue(r, t)})
			}
		}
		p.Records = append(p.Records, rec)
	}
	for k := 1 + r.Intn(3); k > 0; k-- {
		v := ref.Sub{Type: ref.TTerm, V: ref.RandTerm(r)}
		if r.Intn(2) == 0 {
			v = ref.Sub{Type: ref.TAuth, V: ref.RandValue(r, ref.TAuth)}
		}
		rec := &p.Records[r.Intn(n)]
		at := r.Intn(len(rec.Subs) + 1)
		rec.Subs = append(rec.Subs[:at:at], append([]ref.Sub{v}, rec.Subs[at:]...)...)
	}
	return g.finish(p, "identification within")
}

// Objects makes a packet in which several objects report, interleaved.
func (g *Gen) Objects() *Item {
	r := g.R
	p := g.header()
	n := 2 + r.Intn(7)
	ids := []uint32{g.oid(), g.oid(), g.oid()}
	for i := 0; i < n; i++ {
		rec := ref.RandRecord(r, nil, 0)
		rec.OBFE = i == 0 || r.Intn(3) > 0
		rec.OID = 0
		if rec.OBFE {
			rec.OID = ids[r.Intn(len(ids))]
		}
		rec.Subs = g.telemetry([]int{0, 1, 1, 2}[r.Intn(4)], r.Intn(4))
		p.Records = append(p.Records, rec)
	}
	return g.finish(p, "several objects")
}

// Sensors makes a packet for the k-th combination of flags.
func (g *Gen) Sensors(k int) *Item {
	r := g.R
	p := g.header()
	rec := ref.RandRecord(r, nil, 0)
	rec.OBFE, rec.OID = true, g.oid()
	pos := g.pos()
	pos.LAHS, pos.LOHS = byte(k&1), byte(k>>1&1)
	pos.MV, pos.BB, pos.CS, pos.FIX, pos.VLD = byte(k>>2&1), byte(k>>3&1), byte(k>>4&1), byte(k>>5&1), byte(k>>6&1)
	switch k % 7 {
	case 0:
		pos.LAT, pos.LON = 0, 0
	case 1:
		pos.LAT, pos.LON = 0xFFFFFFFF, 0xFFFFFFFF
	}
	a := ref.RandValue(r, ref.TAdSens).(*ref.AdSens)
	a.ASFE = byte(k)
	for j := range a.ANS {
		a.ANS[j] = 0
		if a.ASFE>>j&1 == 1 {
			a.ANS[j] = uint32(ref.Bound(r, 24))
		}
	}
	l := ref.RandValue(r, ref.TLiquid).(*ref.Liquid)
	l.LLSVU = byte(k % 3)
	l.LLSEF = byte(k >> 2 & 1)
	l.LLSN = byte(k & 7)
	c := &ref.AbsCntr{CN: byte(k), CNV: uint32(ref.Bound(r, 24))}
	an := &ref.AbsAn{ASN: byte(k >> 1), ASV: uint32(ref.Bound(r, 24))}
	subs := []ref.Sub{{Type: ref.TPos, V: pos}, {Type: ref.TAdSens, V: a}, {Type: ref.TLiquid, V: l}, {Type: ref.TAbsCntr, V: c}, {Type: ref.TAbsAn, V: an}}
	if c.CN == 111 { // the high byte alone means nothing
		subs = append(subs, ref.Sub{Type: ref.TAbsCntr, V: &ref.AbsCntr{CN: 110, CNV: uint32(ref.Bound(r, 24))}})
	}
	r.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
	rec.Subs = subs
	p.Records = []ref.Record{rec}
	return g.finish(p, "flags")
}

// Bare makes the shortest packet there is: a header without a body.
func (g *Gen) Bare() *Item {
	p := g.header()
	p.RTE, p.PRA, p.RCA, p.TTL = 0, 0, 0, 0
	it := g.finish(p, "no body")
	return it
}
