package lib

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

func replayPkt(p *ref.Packet, extra string) map[string]any {
	return map[string]any{"expected_wire": hexs(p.Wire()), "shape": typeSig(p), "detail": extra}
}

// variants are the ways a caller may fill the structures for the same packet.
func variant(rng *rand.Rand, i int) conv.Opt {
	o := conv.Opt{Lengths: i%3 == 0, Infer: i%4 == 1}
	if i%2 == 1 {
		o.Junk = rand.New(rand.NewSource(rng.Int63()))
	}
	return o
}

// L03: encode and decode are inverse.
func L03(r *h.Run) {
	r.Rule = "random packets of all shapes: all subrecord types, flag combinations, boundary values, several records, sizes to 64 KB; structure -> bytes -> structure compared field by field, and bytes -> structure -> bytes byte by byte; plus real packets. Distinct by packet bytes; packets without records count as trivial."
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	r.Parallel("roundtrip", r.Scale(400, 12000), runtime.NumCPU(), func(shard int, rng *rand.Rand) {
		for k := 0; k < 50; k++ {
			i := shard*50 + k
			p := evenSpeed(gen(rng, i))
			if p.PT == ref.PtAppdata && len(p.Records) == 0 {
				continue // covered with the other empty packets below
			}
			roundTrip(r, rng, p, variant(rng, i))
			if i%997 == 0 {
				r.Sample(map[string]any{"shape": typeSig(p), "wire": hexs(p.Wire())})
			}
			if i%5 == 0 {
				sections(r, rng, p)
			}
		}
	})
	// every presence pattern of the flag driven sections
	rng := r.Rng("patterns")
	for m := 0; m < 256; m++ {
		for _, v := range patterns(rng, byte(m)) {
			p := ref.RandHeader(rng)
			p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
			p.Records[0].Subs = []ref.Sub{v}
			roundTrip(r, rng, evenSpeed(p), variant(rng, m))
		}
	}
	// header and record flag bytes, empty packets
	for m := 0; m < 256; m++ {
		p := ref.RandHeader(rng)
		f := byte(m)
		p.PRF, p.RTE, p.ENA, p.CMP, p.PR = f>>6, f>>5&1, f>>3&3, f>>2&1, f&3
		if p.RTE == 1 {
			p.PRA, p.RCA, p.TTL = 0x1234, 0x5678, 0x9A
		} else {
			p.PRA, p.RCA, p.TTL = 0, 0, 0
		}
		rec := ref.Record{RN: uint16(m), SSOD: f >> 7, RSOD: f >> 6 & 1, GRP: f >> 5 & 1, RPP: f >> 3 & 3, TMFE: f&4 != 0, EVFE: f&2 != 0, OBFE: f&1 != 0, SST: 2, RST: 2}
		if rec.TMFE {
			rec.TM = 0xA1B2C3D4
		}
		if rec.EVFE {
			rec.EVID = 0x01020304
		}
		if rec.OBFE {
			rec.OID = 0xFEDCBA98
		}
		rec.Subs = []ref.Sub{{Type: ref.TResult, V: &ref.Result{RCD: f}}}
		p.Records = []ref.Record{rec, rec}
		roundTrip(r, rng, p, variant(rng, m))
		p.Records = nil
		roundTrip(r, rng, p, variant(rng, m+1))
	}
	// the highest bit of the direction, see known-findings.txt: only this very folding is on record
	for d := 0; d < 256; d++ {
		pos := ref.RandPos(rng)
		pos.SPD = pos.SPD / 10 * 10
		pos.DIRH, pos.DIR = 1, byte(d)
		w := pos.Wire()
		r.Guard("direction", func() any { return hexs(w) }, func() {
			var got egts.SrPosData
			if err := got.Decode(w); err != nil {
				r.Violate("section rejected", err.Error(), hexs(w))
				return
			}
			b, err := got.Encode()
			switch {
			case err != nil || len(b) != len(w) || b[15]&0x7F != byte(d)&0x7F:
				r.Violate("direction", fmt.Sprintf("DIRH 1, DIR %d comes back as %s (%v)", d, hexs(b), err), hexs(w))
			case b[15] == byte(d):
			case d >= 128:
				r.Violate("bit 7 of DIR lost in a round trip when DIRH=1", fmt.Sprintf("DIRH 1, DIR %d comes back as %d", d, b[15]), hexs(w))
			default:
				r.Violate("direction", fmt.Sprintf("DIRH 1, DIR %d comes back as %d", d, b[15]), hexs(w))
			}
			r.Count("directions with DIRH", 1)
		})
	}
	// source data of a position that is present but zero
	for i := 0; i < 200; i++ {
		p := ref.RandHeader(rng)
		p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
		pos := ref.RandPos(rng)
		pos.SRCD = []byte{0, 0}
		p.Records[0].Subs = []ref.Sub{{Type: ref.TPos, V: pos}}
		p = evenSpeed(p)
		r.Guard("zero source data", func() any { return replayPkt(p, "") }, func() {
			var q egts.Package
			if code, err := q.Decode(p.Wire()); err != nil {
				r.Violate("well formed packet rejected", fmt.Sprintf("code %d: %v", code, err), replayPkt(p, ""))
				return
			}
			b, err := q.Encode()
			if err != nil {
				r.Violate("encode of decoded fails", err.Error(), replayPkt(p, ""))
			} else if d := conv.SameWire(b, p); d != "" {
				r.Violate("encode(decode(b)) differs", d, map[string]any{"encoded": hexs(b), "expected_wire": hexs(p.Wire())})
			}
			r.Eval(string(b))
		})
	}
	// real packets: decoding what was encoded gives the same content again
	for _, c := range ref.Corpus() {
		r.Guard("real packet", func() any { return bytesCase("pkg", c) }, func() {
			var a, b egts.Package
			if _, err := a.Decode(c); err != nil {
				return
			}
			r.Count("real packets", 1)
			w, err := a.Encode()
			if err != nil {
				r.Violate("real packet does not encode", err.Error(), bytesCase("pkg", c))
				return
			}
			if _, err := b.Decode(w); err != nil {
				r.Violate("real packet does not decode again", err.Error(), bytesCase("pkg", c))
				return
			}
			if _, err := ref.Parse(c); err == nil && len(w) != len(c) {
				r.Violate("real packet changes size", fmt.Sprintf("%d bytes become %d", len(c), len(w)), bytesCase("pkg", c))
				return
			}
			b.ServicesFrameDataCheckSum = a.ServicesFrameDataCheckSum // coordinates may move by a unit
			if d := conv.DiffTol(&b, &a, conv.UnitTol); d != "" {
				r.Violate("real packet changes", d, bytesCase("pkg", c))
			}
			r.Eval(string(c))
		})
	}
	r.Parallel("other", r.Scale(40, 800), runtime.NumCPU(), func(_ int, rng *rand.Rand) {
		for k := 0; k < 50; k++ {
			otherSubrecord(r, rng, k)
		}
	})
}

// otherTypes are the subrecords of the standard that the codec need not know (and every
// type the standard leaves free), with the sizes the standard gives them; 0 means any size.
var otherTypes = []struct {
	t     byte
	sizes []int
}{
	{20, []int{13, 21, 29, 85, 5 + 8*255}}, // EGTS_SR_ACCEL_DATA: SA, ATM, then 8 bytes each
	{2, nil}, {3, []int{0, 17, 30}}, {8, []int{4, 8}}, {22, []int{3}}, {23, []int{3}},
	{26, []int{4}}, {28, []int{4, 10}}, {33, nil}, {34, nil}, {40, nil}, {51, nil},
}

// otherSubrecord puts subrecords the codec does not support into a well formed packet:
// they may be refused or carried along, but never be read as something they are not.
func otherSubrecord(r *h.Run, rng *rand.Rand, k int) {
	p := ref.RandHeader(rng)
	rec := ref.RandRecord(rng, []byte{ref.TState, ref.TAbsCntr, ref.TResult}, rng.Intn(3))
	n := 1
	if k%4 == 0 {
		n = 1 + rng.Intn(4)
	}
	var sig string
	for i := 0; i < n; i++ {
		t := otherTypes[rng.Intn(len(otherTypes))]
		size := rng.Intn(60)
		if len(t.sizes) > 0 {
			size = t.sizes[rng.Intn(len(t.sizes))]
		}
		if k%7 == 6 { // any type at all
			t.t = byte(rng.Intn(256))
			for supported(t.t) || t.t == 20 && size == 5 {
				t.t++
			}
		}
		b := make([]byte, size)
		if k%3 != 0 {
			rng.Read(b)
		}
		at := rng.Intn(len(rec.Subs) + 1)
		rec.Subs = append(rec.Subs[:at], append([]ref.Sub{{Type: t.t, V: ref.Raw{B: b}}}, rec.Subs[at:]...)...)
		sig += fmt.Sprintf("%d:%d ", t.t, size)
	}
	p.Records = []ref.Record{rec}
	w := p.Wire()
	replay := map[string]any{"wire": hexs(w), "subrecords not supported (type:size)": sig}
	r.Guard("other subrecord", func() any { return replay }, func() {
		r.Eval(string(w))
		var q egts.Package
		code, err := q.Decode(w)
		if err != nil {
			r.Count("packets with other subrecords refused", 1)
			return
		}
		if code != 0 {
			r.Violate("code of a decoded packet", fmt.Sprintf("no error, but code %d", code), replay)
			return
		}
		r.Count("packets with other subrecords decoded", 1)
		b, err := q.Encode()
		if err != nil {
			r.Violate("encode of decoded fails", err.Error(), replay)
		} else if string(b) != string(w) {
			r.Violate("other subrecord misread", fmt.Sprintf("subrecords %s come back as %s", sig, hexs(b)), replay)
		}
	})
}

func supported(t byte) bool {
	for _, x := range ref.AllTypes {
		if x == t {
			return t != 20
		}
	}
	return false
}

func roundTrip(r *h.Run, rng *rand.Rand, p *ref.Packet, o conv.Opt) {
	w := p.Wire()
	end := r.Busy("pkg", w)
	defer end()
	r.Guard("round trip", func() any { return replayPkt(p, "") }, func() {
		sig := string(w)
		if len(p.Records) == 0 {
			sig = ""
		}
		r.Eval(sig)
		e := conv.ToEgts(p, o)
		b, err := e.Encode()
		if err != nil {
			r.Violate("encode fails", fmt.Sprintf("a representable packet does not encode: %v", err), replayPkt(p, ""))
			return
		}
		var got egts.Package
		code, err := got.Decode(b)
		if err != nil || code != 0 {
			r.Violate("decode of encoded fails", fmt.Sprintf("code %d: %v", code, err), map[string]any{"shape": typeSig(p), "encoded": hexs(b), "expected_wire": hexs(w)})
			return
		}
		want := conv.ToEgts(p, conv.Opt{Lengths: true})
		want.ServicesFrameDataCheckSum = got.ServicesFrameDataCheckSum // coordinates may move by a unit
		if d := conv.DiffTol(&got, want, conv.UnitTol); d != "" {
			r.Violate("decode(encode(x)) differs"+short(d), d, map[string]any{"shape": typeSig(p), "encoded": hexs(b), "expected_wire": hexs(w)})
			return
		}
		// bytes -> structure -> bytes, starting from independently laid out bytes
		var q egts.Package
		if code, err := q.Decode(w); err != nil || code != 0 {
			r.Violate("well formed packet rejected", fmt.Sprintf("code %d: %v", code, err), replayPkt(p, ""))
			return
		}
		b2, err := q.Encode()
		if err != nil {
			r.Violate("encode of decoded fails", err.Error(), replayPkt(p, ""))
			return
		}
		if d := conv.SameWire(b2, p); d != "" {
			r.Violate("encode(decode(b)) differs", d, map[string]any{"shape": typeSig(p), "encoded": hexs(b2), "expected_wire": hexs(w)})
		}
		r.Count("packets round-tripped", 1)
		r.Count("records", int64(len(p.Records)))
		for i := range p.Records {
			for _, s := range p.Records[i].Subs {
				r.Count(fmt.Sprintf("subrecord type %d", s.Type), 1)
			}
		}
	})
}

// short strips indices from a difference so that it can serve as a key.
func short(d string) string {
	i := strings.Index(d, ":")
	if i < 0 {
		return ""
	}
	var b strings.Builder
	for _, c := range d[:i] {
		if c < '0' || c > '9' {
			b.WriteRune(c)
		}
	}
	return " at " + b.String()
}

// sections round-trips every section on its own.
func sections(r *h.Run, rng *rand.Rand, p *ref.Packet) {
	r.Guard("section", func() any { return replayPkt(p, "") }, func() {
		for i := range p.Records {
			for _, s := range p.Records[i].Subs {
				v := conv.Value(s.V, conv.Opt{})
				b, err := v.Encode()
				if err != nil {
					r.Violate("section encode fails", fmt.Sprintf("type %d: %v", s.Type, err), map[string]any{"type": s.Type, "wire": hexs(s.V.Wire())})
					continue
				}
				n := NewSection(s.Type)
				if err := n.Decode(b); err != nil {
					r.Violate("section decode fails", fmt.Sprintf("type %d: %v", s.Type, err), map[string]any{"type": s.Type, "wire": hexs(s.V.Wire()), "encoded": hexs(b)})
					continue
				}
				if d := conv.DiffTol(n, v, conv.UnitTol); d != "" {
					r.Violate("section differs"+short(d), fmt.Sprintf("type %d: %s", s.Type, d), map[string]any{"type": s.Type, "wire": hexs(s.V.Wire()), "encoded": hexs(b)})
				}
				r.Eval(fmt.Sprint(s.Type) + string(b))
			}
		}
	})
}

// patterns makes one value per flag driven section with presence byte m.
func patterns(rng *rand.Rand, m byte) []ref.Sub {
	var out []ref.Sub
	add := func(t byte, v ref.Value) { out = append(out, ref.Sub{Type: t, V: v}) }
	pick := func(t byte, ok func(ref.Value) bool) {
		for k := 0; k < 200000; k++ {
			if v := ref.RandValue(rng, t); ok(v) {
				add(t, v)
				return
			}
		}
		panic("pattern not found")
	}
	nz := func() uint32 { return 1 + uint32(rng.Intn(0xFFFFFF)) }
	a := &ref.AdSens{DIOE: m, DOUT: byte(rng.Uint32()), ASFE: byte(rng.Uint32())}
	b := &ref.AdSens{DIOE: byte(rng.Uint32()), DOUT: byte(rng.Uint32()), ASFE: m}
	c := &ref.Counters{CFE: m}
	for _, x := range []*ref.AdSens{a, b} {
		for i := 0; i < 8; i++ {
			if x.DIOE>>i&1 == 1 {
				x.ADIO[i] = byte(1 + rng.Intn(255))
			}
			if x.ASFE>>i&1 == 1 {
				x.ANS[i] = nz()
			}
		}
	}
	for i := 0; i < 8; i++ {
		if c.CFE>>i&1 == 1 {
			c.CN[i] = nz()
		}
	}
	add(ref.TAdSens, a)
	add(ref.TAdSens, b)
	add(ref.TCounters, c)
	pick(ref.TTerm, func(v ref.Value) bool { return v.Wire()[4] == m })
	pos := ref.RandPos(rng)
	pos.ALTE, pos.LOHS, pos.LAHS, pos.MV, pos.BB, pos.CS, pos.FIX, pos.VLD = m>>7, m>>6&1, m>>5&1, m>>4&1, m>>3&1, m>>2&1, m>>1&1, m&1
	pos.ALT = 0
	if pos.ALTE == 1 {
		pos.ALT = nz()
	}
	add(ref.TPos, pos)
	if m < 32 {
		pick(ref.TExtPos, func(v ref.Value) bool { return v.Wire()[0] == m })
	}
	if m < 128 {
		add(ref.TLiquid, &ref.Liquid{LLSEF: m >> 6, LLSVU: m >> 4 & 3, RDF: m >> 3 & 1, LLSN: m & 7, MADDR: uint16(rng.Uint32()), LLSD: rng.Uint32()})
	}
	if m < 8 {
		add(ref.TState, &ref.State{ST: 1, MPSV: 2, BBV: 3, IBV: 4, NMS: m >> 2, IBU: m >> 1 & 1, BBU: m & 1})
		add(ref.TState20, &ref.State{ST: 1, MPSV: 2, BBV: 3, IBV: 4, NMS: m >> 2, IBU: m >> 1 & 1, BBU: m & 1})
	}
	add(ref.TAbsAn, &ref.AbsAn{ASN: m, ASV: nz()})
	add(ref.TAbsCntr, &ref.AbsCntr{CN: m, CNV: nz()})
	add(ref.TResult, &ref.Result{RCD: m})
	add(ref.TResponse, &ref.Response{CRN: uint16(m)<<8 | uint16(255-m), RST: m})
	add(ref.TDisp, &ref.Disp{DT: m, DID: rng.Uint32(), DSCR: ref.RandStr(rng, int(m))})
	add(ref.TAuth, &ref.Auth{UNM: ref.RandStr(rng, int(m)), UPSW: ref.RandStr(rng, int(255-m)), SS: ref.RandStr(rng, int(m))})
	return out
}

// L04: the bytes are those of the standard.
func L04(r *h.Run) {
	r.Rule = "random packets of all shapes laid out by an independent implementation of the standard's tables (package ref): encoder output compared byte by byte, decoder output field by field, in both directions separately so that symmetric mistakes show; every presence pattern and flag byte enumerated; arbitrary degrees, time zones. Distinct by packet bytes."
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	enc := func(p *ref.Packet, o conv.Opt) {
		w := p.Wire()
		r.Guard("encode", func() any { return replayPkt(p, "") }, func() {
			b, err := conv.ToEgts(p, o).Encode()
			if err != nil {
				r.Violate("encode fails", err.Error(), replayPkt(p, ""))
				return
			}
			if d := conv.SameWire(b, p); d != "" {
				r.Violate("encoder output", d, map[string]any{"shape": typeSig(p), "encoded": hexs(b), "expected_wire": hexs(w)})
				return
			}
			r.Count("encodings compared", 1)
		})
	}
	dec := func(p *ref.Packet) {
		w := p.Wire()
		end := r.Busy("pkg", w)
		defer end()
		r.Guard("decode", func() any { return replayPkt(p, "") }, func() {
			var got egts.Package
			code, err := got.Decode(w)
			if err != nil || code != 0 {
				r.Violate("well formed packet rejected", fmt.Sprintf("code %d: %v", code, err), replayPkt(p, ""))
				return
			}
			if d := conv.Diff(&got, conv.ToEgts(p, conv.Opt{Lengths: true})); d != "" {
				r.Violate("decoded field"+short(d), d, replayPkt(p, d))
				return
			}
			r.Count("decodings compared", 1)
			plusAccess(r, &got, w)
		})
		r.Eval(string(w))
	}
	both := func(p *ref.Packet, o conv.Opt) {
		dec(p)
		enc(evenSpeed(p), o)
		for i := range p.Records {
			for _, s := range p.Records[i].Subs {
				r.Count(fmt.Sprintf("subrecord type %d", s.Type), 1)
			}
		}
	}
	r.Parallel("wire", r.Scale(400, 12000), runtime.NumCPU(), func(shard int, rng *rand.Rand) {
		for k := 0; k < 50; k++ {
			i := shard*50 + k
			p := gen(rng, i)
			both(p, variant(rng, i))
			if i%997 == 0 {
				r.Sample(map[string]any{"shape": typeSig(p), "wire": hexs(p.Wire())})
			}
		}
	})
	rng := r.Rng("patterns")
	for round := 0; round < r.Scale(1, 20); round++ {
		for m := 0; m < 256; m++ {
			for _, v := range patterns(rng, byte(m)) {
				p := ref.RandHeader(rng)
				p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
				p.Records[0].Subs = []ref.Sub{v}
				both(p, variant(rng, m))
				// the section alone
				r.Guard("section", func() any { return map[string]any{"type": v.Type, "wire": hexs(v.V.Wire())} }, func() {
					s := NewSection(v.Type)
					if err := s.Decode(v.V.Wire()); err != nil {
						r.Violate("section rejected", fmt.Sprintf("type %d: %v", v.Type, err), map[string]any{"type": v.Type, "wire": hexs(v.V.Wire())})
					} else if d := conv.Diff(s, conv.Value(v.V, conv.Opt{})); d != "" {
						r.Violate("section field"+short(d), fmt.Sprintf("type %d: %s", v.Type, d), map[string]any{"type": v.Type, "wire": hexs(v.V.Wire())})
					}
				})
			}
			p := ref.RandHeader(rng)
			f := byte(m)
			p.PRF, p.RTE, p.ENA, p.CMP, p.PR = f>>6, f>>5&1, f>>3&3, f>>2&1, f&3
			if p.RTE == 1 {
				p.PRA, p.RCA, p.TTL = uint16(rng.Uint32()), uint16(rng.Uint32()), byte(rng.Uint32())
			} else {
				p.PRA, p.RCA, p.TTL = 0, 0, 0
			}
			rec := ref.Record{RN: uint16(rng.Uint32()), SSOD: f >> 7, RSOD: f >> 6 & 1, GRP: f >> 5 & 1, RPP: f >> 3 & 3, TMFE: f&4 != 0, EVFE: f&2 != 0, OBFE: f&1 != 0, SST: byte(rng.Uint32()), RST: byte(rng.Uint32())}
			if rec.TMFE {
				rec.TM = rng.Uint32()
			}
			if rec.EVFE {
				rec.EVID = rng.Uint32()
			}
			if rec.OBFE {
				rec.OID = rng.Uint32()
			}
			rec.Subs = []ref.Sub{{Type: ref.TResult, V: &ref.Result{RCD: f}}}
			p.Records = []ref.Record{rec, rec}
			both(p, variant(rng, m))
			p.Records = nil
			both(p, variant(rng, m))
		}
	}
	// degrees and times a caller may have at hand, not only those that came off the wire
	zones := []*time.Location{time.UTC, time.FixedZone("east", 5*3600+1800), time.FixedZone("west", -11*3600)}
	for i := 0; i < r.Scale(20000, 400000); i++ {
		pos := ref.RandPos(rng)
		pos.SPD = pos.SPD / 10 * 10
		e := conv.Value(pos, conv.Opt{}).(*egts.SrPosData)
		e.Latitude, e.Longitude = rng.Float64()*90, rng.Float64()*180
		switch i % 8 {
		case 0:
			e.Latitude = float64(rng.Intn(91))
		case 1:
			e.Longitude = float64(rng.Intn(181))
		case 2:
			e.Latitude, e.Longitude = math.Nextafter(90, 0), math.Nextafter(180, 0)
		case 3:
			e.Latitude, e.Longitude = rng.Float64()*1e-6, rng.Float64()*1e-6
		}
		e.NavigationTime = e.NavigationTime.In(zones[i%3])
		pos.LAT, pos.LON = uint32(math.Floor(e.Latitude/90*0xFFFFFFFF)), uint32(math.Floor(e.Longitude/180*0xFFFFFFFF))
		p := ref.RandHeader(rng)
		p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
		p.Records[0].Subs = []ref.Sub{{Type: ref.TPos, V: pos}}
		r.Guard("degrees", func() any { return replayPkt(p, "") }, func() {
			g := conv.ToEgts(p, conv.Opt{})
			(*g.ServicesFrameData.(*egts.ServiceDataSet))[0].RecordDataSet[0].SubrecordData = e
			b, err := g.Encode()
			if err != nil {
				r.Violate("encode fails", err.Error(), replayPkt(p, fmt.Sprintf("%v %v %v", e.Latitude, e.Longitude, e.NavigationTime)))
				return
			}
			if d := conv.SameWire(b, p); d != "" {
				r.Violate("encoder output for degrees", d, map[string]any{"lat": e.Latitude, "lon": e.Longitude, "time": e.NavigationTime.String(), "encoded": hexs(b), "expected_wire": hexs(p.Wire())})
			}
			r.Eval(string(b))
		})
	}
	// the highest bit of the direction, see known-findings.txt: only this very folding is on record
	for d := 0; d < 256; d++ {
		pos := ref.RandPos(rng)
		pos.SPD = pos.SPD / 10 * 10
		pos.DIRH, pos.DIR = 1, byte(d)
		w := pos.Wire()
		r.Guard("direction", func() any { return hexs(w) }, func() {
			var got egts.SrPosData
			if err := got.Decode(w); err != nil {
				r.Violate("section rejected", err.Error(), hexs(w))
				return
			}
			switch got.Direction {
			case byte(d):
			case byte(d) | 0x80:
				r.Violate("DIRH=1 folded into bit 7 of DIR by the decoder", fmt.Sprintf("DIRH 1, DIR %d decodes to Direction %d", d, got.Direction), hexs(w))
			default:
				r.Violate("direction", fmt.Sprintf("DIRH 1, DIR %d decodes to Direction %d", d, got.Direction), hexs(w))
			}
			e := conv.Value(pos, conv.Opt{}).(*egts.SrPosData)
			b, err := e.Encode()
			if err != nil || len(b) != len(w) {
				r.Violate("encode fails", fmt.Sprint(err), hexs(w))
				return
			}
			switch b[15] {
			case byte(d):
			case byte(d) &^ 0x80:
				r.Violate("bit 7 of DIR cleared by the encoder when DIRH=1", fmt.Sprintf("DIRH 1, Direction %d encodes to DIR %d", d, b[15]), hexs(b))
			default:
				r.Violate("direction", fmt.Sprintf("DIRH 1, Direction %d encodes to DIR %d", d, b[15]), hexs(b))
			}
			r.Count("directions with DIRH", 1)
		})
	}
	// real packets against the independent parser
	for _, c := range ref.Corpus() {
		p, err := ref.Parse(c)
		if err != nil {
			continue
		}
		r.Guard("real packet", func() any { return bytesCase("pkg", c) }, func() {
			var got egts.Package
			if _, err := got.Decode(c); err != nil {
				return // unsupported content
			}
			r.Count("real packets", 1)
			if got.PacketIdentifier != p.PID || got.PacketType != p.PT || int(got.FrameDataLength) != len(c)-p.HL()-2 && got.FrameDataLength != 0 {
				r.Violate("real packet header", fmt.Sprintf("PID %d PT %d FDL %d", got.PacketIdentifier, got.PacketType, got.FrameDataLength), bytesCase("pkg", c))
			}
			if s, ok := got.ServicesFrameData.(*egts.ServiceDataSet); ok {
				if len(*s) != len(p.Records) {
					r.Violate("real packet records", fmt.Sprintf("%d records, want %d", len(*s), len(p.Records)), bytesCase("pkg", c))
					return
				}
				for i, rec := range *s {
					if len(rec.RecordDataSet) != len(p.Records[i].Subs) || rec.RecordNumber != p.Records[i].RN || rec.ObjectIdentifier != p.Records[i].OID {
						r.Violate("real packet record", fmt.Sprintf("record %d differs", i), bytesCase("pkg", c))
					}
				}
			}
			r.Eval(string(c))
		})
	}
}
