package lib

import (
	"fmt"
	"math/rand"
	"runtime"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/h"
	"verif/harness/ref"
)

// PrefixOK tells whether the first n bytes of a section's content are a
// complete content of that type themselves.
func PrefixOK(s ref.Sub, w []byte, n int) bool {
	if n == len(w) {
		return true
	}
	switch s.Type {
	case ref.TPos: // source data has no flag; one byte of it is not judged
		if v, ok := s.V.(*ref.Pos); ok && len(v.SRCD) > 0 {
			return n >= len(w)-2
		}
	case ref.TDisp: // the description is what is left
		return n >= 5
	case ref.TAuth: // the server sequence may be missing, the first two strings may not
		z := 0
		for _, c := range w[:n] {
			if c == 0 {
				z++
			}
		}
		return z >= 2 && w[n-1] == 0
	case ref.TPlus:
		return plusBoundary(w[:n])
	}
	return false
}

// plusBoundary: protobuf content ending between two top level fields with all
// required fields (1, 2 and 4) present.
func plusBoundary(b []byte) bool {
	have := map[int]bool{}
	uv := func() (uint64, bool) {
		var v uint64
		for i := uint(0); i < 70 && len(b) > 0; i += 7 {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7F) << i
			if c < 0x80 {
				return v, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		t, ok := uv()
		if !ok {
			return false
		}
		n := 0
		switch t & 7 {
		case 0:
			if _, ok := uv(); !ok {
				return false
			}
		case 1:
			n = 8
		case 2:
			l, ok := uv()
			if !ok {
				return false
			}
			n = int(l)
		case 5:
			n = 4
		default:
			return false
		}
		if len(b) < n {
			return false
		}
		b = b[n:]
		have[int(t>>3)] = true
	}
	return ref.PlusRequired(have)
}

// L05: truncation is an error.
func L05(r *h.Run) {
	r.Rule = "for random packets of every shape: every proper prefix of the packet; every prefix of the body with frame data length and checksum made consistent again; every prefix of each record's subrecords and of each subrecord's content with all enclosing lengths and checksums made consistent; the same prefixes given directly to the section decoders. Prefixes that are themselves well formed (end at a boundary, variable-length tail) are not judged, nor is a record header that ends the frame. Distinct by (entry point, bytes)."
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	must := func(kind string, b []byte, what string) {
		end := r.Busy(kind, b)
		defer end()
		r.Eval(kind + string(b))
		r.Guard("decode "+kind, func() any { return bytesCase(kind, b) }, func() {
			if err := decodeOnly(kind, b); err == nil {
				r.Violate("accepted: "+what, fmt.Sprintf("%s: decoding (%s) reports success", what, kind), bytesCase(kind, b))
			}
		})
	}
	fine := func(kind string, b []byte, what string) {
		r.Guard("decode "+kind, func() any { return bytesCase(kind, b) }, func() {
			if err := decodeOnly(kind, b); err != nil {
				r.Violate("intact input rejected", fmt.Sprintf("%s: %v", kind, err), bytesCase(kind, b))
			}
		})
	}
	r.Parallel("truncate", r.Scale(400, 12000), runtime.NumCPU(), func(i int, rng *rand.Rand) {
		p := gen(rng, i)
		if i%40 == 39 {
			p = ref.RandPacket(rng, ref.AllTypes, i%200 == 199)
		}
		w := p.Wire()
		body := p.Body()
		fine("pkg", w, "intact")
		step := 1 + len(w)/1500
		hl := p.HL()
		for n := 0; n < len(w); n++ {
			if n > 60 && n < len(w)-30 && rng.Intn(step) > 0 {
				continue
			}
			must("pkg", w[:n:n], "packet cut")
			r.Count("packet prefixes", 1)
		}
		// cut inside spare capacity: bytes behind the end must not be used
		if len(w) > hl {
			must("pkg", w[:hl+rng.Intn(len(w)-hl)], "packet cut, the rest behind the slice")
		}
		// where a body may end
		fixed := 0
		if p.PT == ref.PtResponse {
			fixed = 3
		}
		ends := map[int]bool{fixed: true}
		open := map[int]bool{} // a record header ending the frame
		at := fixed
		for k := range p.Records {
			rec := &p.Records[k]
			l := len(rec.Wire())
			open[at+l-len(rec.SubsWire())] = true
			at += l
			ends[at] = true
		}
		for n := 1; n < len(body); n++ {
			if ends[n] || open[n] {
				continue
			}
			if n > 60 && rng.Intn(step) > 0 {
				continue
			}
			must("pkg", p.WireBody(body[:n]), "body cut, checksums right")
			r.Count("body prefixes", 1)
			if p.PT == ref.PtAppdata {
				must("sds", body[:n], "records cut")
			} else {
				must("resp", body[:n], "response cut")
			}
		}
		if p.PT == ref.PtResponse {
			must("resp", nil, "response cut")
		}
		// inside one record
		for k := range p.Records {
			if k > 8 {
				break
			}
			rec := p.Records[k]
			rd := rec.SubsWire()
			bound := map[int]bool{0: true}
			o := 0
			for _, s := range rec.Subs {
				o += 3 + len(s.V.Wire())
				bound[o] = true
			}
			wrap := func(subs []ref.Sub) []byte {
				q := *p
				q.Records = append([]ref.Record(nil), p.Records...)
				q.Records[k].Subs = subs
				return q.Wire()
			}
			st := 1 + len(rd)/200
			for n := 1; n < len(rd); n++ {
				if bound[n] || rng.Intn(st) > 0 {
					continue
				}
				must("pkg", p.WireBody(withRD(p, k, rd[:n])), "subrecords cut, record length right")
				must("rds", rd[:n], "subrecords cut")
				r.Count("subrecord section prefixes", 1)
			}
			for j, s := range rec.Subs {
				if j > 12 {
					break
				}
				c := s.V.Wire()
				kind := fmt.Sprintf("sr%d", s.Type)
				for n := 0; n < len(c); n++ {
					if PrefixOK(s, c, n) {
						continue
					}
					must(kind, c[:n], fmt.Sprintf("content of type %d cut", s.Type))
					if rng.Intn(3) == 0 || len(c) < 40 {
						subs := append([]ref.Sub(nil), rec.Subs...)
						subs[j] = ref.Sub{Type: s.Type, V: ref.Raw{B: c[:n]}}
						if x := wrap(subs); len(x) < 65000 {
							must("pkg", x, fmt.Sprintf("content of type %d cut, lengths right", s.Type))
						}
					}
					r.Count(fmt.Sprintf("content prefixes of type %d", s.Type), 1)
				}
			}
		}
		if i < 6 {
			r.Sample(map[string]any{"shape": typeSig(p), "wire": hexs(w)})
		}
	})
	// all flag bytes: exactly the fields the flags announce are required
	rng := r.Rng("patterns")
	for m := 0; m < 256; m++ {
		for _, s := range patterns(rng, byte(m)) {
			c := s.V.Wire()
			kind := fmt.Sprintf("sr%d", s.Type)
			fine(kind, c, "intact")
			for n := 0; n < len(c); n++ {
				if !PrefixOK(s, c, n) {
					must(kind, c[:n], fmt.Sprintf("content of type %d cut", s.Type))
				}
			}
		}
		// header flags of a record
		f := byte(m)
		rec := ref.Record{RN: 7, SSOD: f >> 7, RSOD: f >> 6 & 1, GRP: f >> 5 & 1, RPP: f >> 3 & 3, TMFE: f&4 != 0, EVFE: f&2 != 0, OBFE: f&1 != 0, OID: 1, EVID: 2, TM: 3, SST: 2, RST: 2, Subs: []ref.Sub{{Type: ref.TResult, V: &ref.Result{}}}}
		rw := rec.Wire()
		for n := 1; n < len(rw); n++ {
			if n == len(rw)-4 {
				continue // header ends the frame
			}
			must("sds", rw[:n], "record cut")
		}
	}
}

// withRD is the body of p with the subrecord section of record k replaced.
func withRD(p *ref.Packet, k int, rd []byte) []byte {
	q := *p
	q.Records = nil
	b := q.Body()
	for i := range p.Records {
		if i != k {
			b = append(b, p.Records[i].Wire()...)
			continue
		}
		e := p.Records[i]
		e.Subs = nil
		hd := e.Wire()
		hd[0], hd[1] = byte(len(rd)), byte(len(rd)>>8)
		b = append(append(b, hd...), rd...)
	}
	return b
}

// decodeOnly runs one decoder and turns a result code without error into an error.
func decodeOnly(kind string, b []byte) error {
	switch kind {
	case "pkg":
		p := egts.Package{}
		code, err := p.Decode(b)
		if err == nil && code != 0 {
			return fmt.Errorf("code %d", code)
		}
		return err
	case "sds":
		return (&egts.ServiceDataSet{}).Decode(b)
	case "rds":
		return (&egts.RecordDataSet{}).Decode(b)
	case "resp":
		return (&egts.PtResponse{}).Decode(b)
	}
	var t byte
	fmt.Sscanf(kind, "sr%d", &t)
	return NewSection(t).Decode(b)
}
