package lib

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

// solo is what decoding an input gives when nothing else is going on.
type solo struct {
	in    []byte
	p     *ref.Packet
	code  uint8
	err   string
	val   egts.Package
	again []byte // the encoding of what is decoded
	aerr  string
}

func runSolo(in []byte, p *ref.Packet) *solo {
	s := &solo{in: append([]byte(nil), in...), p: p}
	own := append([]byte(nil), in...)
	code, err := s.val.Decode(own)
	s.code = code
	s.err = fmt.Sprint(err)
	var v egts.Package
	_, _ = v.Decode(own)
	s.again, err = v.Encode()
	s.aerr = fmt.Sprint(err)
	return s
}

// L07: no shared state, no races, no aliasing.
func L07(r *h.Run) {
	r.Rule = "built with the race detector: many goroutines decode shared read-only buffers and encode packets of all types in different orders; every result is compared with the result obtained alone beforehand (value, code, error text, re-encoding). Single-threaded: the same comparison in shuffled orders mixing failing inputs, input buffers compared before/after and overwritten after decoding, output buffers overwritten between repeated encodings. In fresh processes eight goroutines make the very first calls of every decoder and encoder at the same time. Distinct by input bytes."
	rng := r.Rng("inputs")
	var set []*solo
	add := func(in []byte, p *ref.Packet) {
		r.Guard("decode", func() any { return bytesCase("pkg", in) }, func() {
			set = append(set, runSolo(in, p))
			r.Eval(string(in))
		})
	}
	for i := 0; i < r.Scale(400, 1500); i++ {
		p := evenSpeed(gen(rng, i))
		w := p.Wire()
		add(w, p)
		switch i % 4 {
		case 0:
			b := mutate(rng, w)
			fixSums(b)
			add(b, nil)
		case 1:
			add(w[:rng.Intn(len(w))], nil)
		case 2:
			add(hostilePacket(rng, hostileRecords(rng, 1+rng.Intn(3))), nil)
		}
	}
	for m := 0; m < 256; m++ {
		for _, v := range patterns(rng, byte(m)) {
			if rng.Intn(8) == 0 {
				p := ref.RandHeader(rng)
				p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
				p.Records[0].Subs = []ref.Sub{v}
				p = evenSpeed(p)
				add(p.Wire(), p)
			}
		}
	}
	for _, c := range ref.Corpus() {
		add(c, nil)
	}
	for i := 0; i < 4 && i < len(set); i++ {
		r.Sample(map[string]any{"hex": hexs(set[i].in), "code": set[i].code, "error": set[i].err})
	}
	same := func(s *solo, how string, buf []byte) *egts.Package {
		var v egts.Package
		code, err := v.Decode(buf)
		if code != s.code || fmt.Sprint(err) != s.err {
			r.Violate("result depends on other calls", fmt.Sprintf("%s: code %d, %v; alone: code %d, %s", how, code, err, s.code, s.err), bytesCase("pkg", s.in))
			return nil
		}
		if err == nil || v.ServicesFrameData != nil {
			if d := conv.Diff(&v, &s.val); err == nil && d != "" {
				r.Violate("value depends on other calls", fmt.Sprintf("%s: %s", how, d), bytesCase("pkg", s.in))
				return nil
			}
		}
		return &v
	}
	enc := func(s *solo, v *egts.Package, how string) []byte {
		b, err := v.Encode()
		if fmt.Sprint(err) != s.aerr || !bytes.Equal(b, s.again) {
			r.Violate("encoding depends on other calls", fmt.Sprintf("%s: %d bytes, %v; alone: %d bytes, %s", how, len(b), err, len(s.again), s.aerr), map[string]any{"input": hexs(s.in), "encoded": hexs(b), "alone": hexs(s.again)})
			return nil
		}
		return b
	}
	// one thread: order, aliasing
	for round := 0; round < r.Scale(3, 20); round++ {
		for _, k := range rng.Perm(len(set)) {
			s := set[k]
			r.Guard("alias", func() any { return bytesCase("pkg", s.in) }, func() {
				// room behind the slice, so that appending to it would show
				room := make([]byte, len(s.in)+64)
				for i := range room {
					room[i] = 0xC3
				}
				copy(room, s.in)
				buf := room[:len(s.in)]
				v := same(s, "in another order", buf)
				if v == nil {
					return
				}
				if !bytes.Equal(buf, s.in) {
					r.Violate("input modified", "decoding changes the caller's buffer", bytesCase("pkg", s.in))
				}
				for _, c := range room[len(s.in):] {
					if c != 0xC3 {
						r.Violate("input modified", "decoding writes behind the caller's buffer", bytesCase("pkg", s.in))
						break
					}
				}
				for i := range room {
					room[i] = 0x5A
				}
				if d := conv.Diff(v, &s.val); s.err == "<nil>" && d != "" {
					r.Violate("buffer kept", "overwriting the buffer after decoding changes the decoded packet: "+d, bytesCase("pkg", s.in))
					return
				}
				if s.err != "<nil>" {
					return
				}
				b1 := enc(s, v, "after overwriting the buffer")
				if b1 == nil {
					return
				}
				for i := range b1 {
					b1[i] = 0xA5
				}
				b1 = append(b1, 1, 2, 3)
				b2 := enc(s, v, "encoding again, the first result overwritten")
				if b2 == nil {
					return
				}
				v.FrameDataLength = s.val.FrameDataLength
				if d := conv.Diff(v, &s.val); d != "" {
					r.Violate("encoding changes the packet", d, bytesCase("pkg", s.in))
				}
				r.Count("aliasing probes", 1)
				r.Eval(string(s.in))
			})
		}
	}
	// structures built by a caller: encoding repeatedly, and not changing the content
	for i := 0; i < r.Scale(2000, 20000); i++ {
		p := evenSpeed(gen(rng, i))
		r.Guard("encode twice", func() any { return replayPkt(p, "") }, func() {
			o := variant(rng, i)
			seed := int64(i)
			if o.Junk != nil {
				o.Junk = rand.New(rand.NewSource(seed))
			}
			e := conv.ToEgts(p, o)
			b1, err1 := e.Encode()
			keep := append([]byte(nil), b1...)
			_, _ = e.Encode()
			e.ServicesFrameData.Length()
			b3, err3 := e.Encode()
			if fmt.Sprint(err1) != fmt.Sprint(err3) || !bytes.Equal(keep, b3) {
				r.Violate("encoding twice differs", fmt.Sprintf("%v / %v", err1, err3), map[string]any{"first": hexs(keep), "later": hexs(b3)})
			}
			if !bytes.Equal(keep, b1) {
				r.Violate("encoding overwrites an earlier result", "", map[string]any{"first": hexs(keep), "now": hexs(b1)})
			}
			r.Count("repeated encodings", 1)
		})
	}
	// sections likewise
	for i := 0; i < r.Scale(3000, 30000); i++ {
		t := ref.AllTypes[i%len(ref.AllTypes)]
		w := ref.RandValue(rng, t).Wire()
		r.Guard("section alias", func() any { return bytesCase(fmt.Sprintf("sr%d", t), w) }, func() {
			a, b := NewSection(t), NewSection(t)
			in := append([]byte(nil), w...)
			if a.Decode(w) != nil || b.Decode(in) != nil {
				return
			}
			for k := range in {
				in[k] = 0x5A
			}
			if d := conv.Diff(b, a); d != "" {
				r.Violate("buffer kept", fmt.Sprintf("type %d: %s", t, d), bytesCase(fmt.Sprintf("sr%d", t), w))
			}
		})
	}
	coldStarts(r)
	// many threads
	n := runtime.NumCPU() * 2
	var wg sync.WaitGroup
	until := time.Now().Add(time.Duration(r.Scale(6, 90)) * time.Second)
	// packets encoded by all goroutines, each from its own structure with content it shares with nobody,
	// and decoded from buffers everybody reads
	for g := 0; g < n; g++ {
		wg.Add(1)
		rg := r.Rng("goroutine", g)
		go func() {
			defer wg.Done()
			for time.Now().Before(until) {
				s := set[rg.Intn(len(set))]
				r.Guard("concurrent", func() any { return bytesCase("pkg", s.in) }, func() {
					v := same(s, "concurrently", s.in)
					if v != nil && s.err == "<nil>" {
						enc(s, v, "concurrently")
					}
					if s.p != nil && rg.Intn(2) == 0 {
						b, err := conv.ToEgts(s.p, variant(rg, rg.Intn(24))).Encode()
						if err != nil {
							r.Violate("concurrent encode fails", err.Error(), replayPkt(s.p, ""))
						} else if d := conv.SameWire(b, s.p); d != "" {
							r.Violate("concurrent encode differs", d, map[string]any{"encoded": hexs(b), "expected_wire": hexs(s.p.Wire())})
						}
					}
					r.Count("concurrent operations", 1)
					r.Eval(string(s.in))
				})
				if r.Violated() {
					return
				}
			}
		}()
	}
	wg.Wait()
	r.Count("goroutines", int64(n))
}
