package lib

import (
	"fmt"
	"math/rand"
	"runtime"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/h"
	"verif/harness/ref"
)

// verdict is what the standard says about a complete packet whose body is known
// to be well formed when it is intact.
type verdict struct {
	ok    bool
	codes map[uint8]bool // allowed codes when not ok; empty means any non-zero code
	why   string
}

// classify judges b by header form and checksums alone. It returns ok only when
// everything is right; whether the content then parses is left to the caller.
func classify(b []byte) verdict {
	v := verdict{codes: map[uint8]bool{}}
	add := func(c uint8, why string) {
		v.codes[c] = true
		if v.why != "" {
			v.why += ", "
		}
		v.why += why
	}
	hl := 11
	if len(b) > 2 && b[2]>>5&1 == 1 {
		hl = 16
	}
	if len(b) < hl {
		return verdict{why: "short header"}
	}
	badHL := int(b[3]) != hl
	if badHL {
		add(131, "wrong header length")
		// which byte is the checksum is open: 137 is acceptable unless the declared place holds a right one
		d := int(b[3])
		if d < 1 || d > len(b) || b[d-1] != ref.CRC8(b[:d-1]) {
			add(137, "wrong header checksum")
		}
		return v
	}
	if b[hl-1] != ref.CRC8(b[:hl-1]) {
		add(137, "wrong header checksum")
	}
	headBad := len(v.codes) > 0
	n := int(b[5]) | int(b[6])<<8
	if n > 0 {
		switch {
		case len(b) < hl+n+2:
			if headBad {
				return v // the header is judged first: its length field cannot be trusted
			}
			return verdict{why: "short body"}
		case uint16(b[hl+n])|uint16(b[hl+n+1])<<8 != ref.CRC16(b[hl:hl+n]):
			if !headBad {
				add(138, "wrong body checksum")
			}
		}
	}
	if b[9] > 1 && len(v.codes) == 0 {
		add(133, "unsupported type")
	}
	v.ok = len(v.codes) == 0
	return v
}

// L02: acceptance needs right checksums, header length and type; codes tell what is wrong.
func L02(r *h.Run) {
	r.Rule = "valid random packets (with/without routing, bodies 0..65535 bytes) are decoded intact and after corruption: every single bit of the header, bits/bytes/bursts/swaps in the body and checksums, wrong header lengths and unsupported types with repaired checksums; an independent CRC implementation classifies each. Distinct by packet bytes."
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	check := func(b []byte, contentOK bool, what string) {
		end := r.Busy("pkg", b)
		defer end()
		var code uint8
		var err error
		if !r.Guard("decode", func() any { return bytesCase("pkg", b) }, func() {
			p := egts.Package{}
			code, err = p.Decode(b)
		}) {
			return
		}
		r.Eval(string(b))
		v := classify(b)
		if err != nil && code == 0 {
			r.Violate("error with code 0", fmt.Sprintf("%s: decoding fails (%v) with result code 0", what, err), bytesCase("pkg", b))
			return
		}
		if err == nil && code != 0 {
			r.Violate("code without error", fmt.Sprintf("%s: decoding succeeds with result code %d", what, code), bytesCase("pkg", b))
			return
		}
		if v.ok {
			if contentOK && err != nil {
				r.Violate("intact packet rejected", fmt.Sprintf("%s: rejected with code %d: %v", what, code, err), bytesCase("pkg", b))
			}
			if contentOK {
				r.Count("intact packets accepted", 1)
			}
			return
		}
		if err == nil {
			r.Violate("damaged packet accepted", fmt.Sprintf("%s: accepted although: %s", what, v.why), bytesCase("pkg", b))
			return
		}
		if len(v.codes) > 0 && !v.codes[code] {
			r.Violate("wrong code", fmt.Sprintf("%s: result code %d although: %s", what, code, v.why), bytesCase("pkg", b))
			return
		}
		r.Count(fmt.Sprintf("rejected with %d", code), 1)
	}
	cp := func(b []byte) []byte { return append([]byte(nil), b...) }
	r.Parallel("corrupt", r.Scale(160, 6000), runtime.NumCPU(), func(i int, rng *rand.Rand) {
		p := gen(rng, i)
		if i%16 == 7 { // no body at all
			p = ref.RandHeader(rng)
		}
		w := p.Wire()
		hl := p.HL()
		if i < 8 {
			r.Sample(map[string]any{"packet": hexs(w)})
		}
		check(w, true, "intact packet")
		// every header bit
		for bit := 0; bit < hl*8; bit++ {
			b := cp(w)
			b[bit/8] ^= 1 << (bit % 8)
			check(b, false, fmt.Sprintf("header bit %d flipped", bit))
		}
		// every header byte replaced
		for k := 0; k < hl; k++ {
			for _, x := range []byte{0, 0xFF, byte(rng.Uint32()), byte(rng.Uint32())} {
				b := cp(w)
				if b[k] == x {
					continue
				}
				b[k] = x
				check(b, false, fmt.Sprintf("header byte %d replaced", k))
			}
		}
		// header length off, header checksum consistent
		for _, x := range []int{0, 1, 5, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 27, 43, 64, 128, 255} {
			if x == hl {
				continue
			}
			b := cp(w)
			b[3] = byte(x)
			if x > 4 && x <= len(b) {
				b[x-1] = ref.CRC8(b[:x-1])
			} else {
				b[hl-1] = ref.CRC8(b[:hl-1])
			}
			check(b, false, fmt.Sprintf("header length %d", x))
			// and with the checksum at the right place for the flags
			b = cp(w)
			b[3] = byte(x)
			b[hl-1] = ref.CRC8(b[:hl-1])
			check(b, false, fmt.Sprintf("header length %d with a checksum of the real header", x))
		}
		// unsupported types with right checksums
		for k := 0; k < 12; k++ {
			b := cp(w)
			b[9] = byte(2 + rng.Intn(254))
			if k == 0 {
				b[9] = 2
			}
			fixHeader(b, hl)
			check(b, false, fmt.Sprintf("type %d", b[9]))
			if len(b) > hl { // and a wrong body checksum
				b[len(b)-1-rng.Intn(2)] ^= 1 << rng.Intn(8)
				check(b, false, "unsupported type and wrong body checksum")
			}
		}
		// body and body checksum
		n := len(w) - hl
		if n > 0 {
			bits := n * 8
			step := 1
			if bits > 1500 {
				step = bits / 300
			}
			for bit := rng.Intn(step); bit < bits; bit += step {
				b := cp(w)
				b[hl+bit/8] ^= 1 << (bit % 8)
				check(b, false, fmt.Sprintf("body bit %d flipped", bit))
			}
			for bit := bits - 16; bit < bits; bit++ {
				b := cp(w)
				b[hl+bit/8] ^= 1 << (bit % 8)
				check(b, false, fmt.Sprintf("checksum bit %d flipped", bit))
			}
			for k := 0; k < 40; k++ {
				b := cp(w)
				what := ""
				switch k % 8 {
				case 0: // burst
					at := rng.Intn(n)
					for x := at; x < n && x < at+1+rng.Intn(40); x++ {
						b[hl+x] = byte(rng.Uint32())
					}
					what = "burst in the body"
				case 1: // swap of two neighbours
					at := rng.Intn(n - 1)
					b[hl+at], b[hl+at+1] = b[hl+at+1], b[hl+at]
					what = "bytes swapped"
				case 2:
					b[len(b)-1], b[len(b)-2] = b[len(b)-2], b[len(b)-1]
					what = "checksum bytes swapped"
				case 3:
					b[len(b)-1], b[len(b)-2] = 0, 0
					what = "checksum zero"
				case 4:
					c := ref.CRC16(b[:len(b)-2])
					b[len(b)-2], b[len(b)-1] = byte(c), byte(c>>8)
					what = "checksum over header and body"
				case 5: // two flipped bits
					for z := 0; z < 2; z++ {
						bit := rng.Intn(bits)
						b[hl+bit/8] ^= 1 << (bit % 8)
					}
					what = "two body bits flipped"
				case 6: // header and body
					b[rng.Intn(hl)] ^= 1 << rng.Intn(8)
					b[hl+rng.Intn(n)] ^= 1 << rng.Intn(8)
					what = "header and body bit flipped"
				case 7: // right checksum of other content
					b[hl+rng.Intn(n-2)] ^= 1 << rng.Intn(8)
					b[len(b)-2] ^= byte(rng.Uint32())
					what = "content and checksum changed"
				}
				if string(b) == string(w) {
					continue
				}
				check(b, false, what)
			}
		}
	})
	// all 256 values of the header checksum, all 65536 of a body checksum
	rng := r.Rng("exhaustive")
	p := ref.RandHeader(rng)
	p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TPos, ref.TAbsAn}, 2)}
	w := p.Wire()
	for x := 0; x < 256; x++ {
		b := cp(w)
		b[p.HL()-1] = byte(x)
		check(b, true, "header checksum value")
	}
	for x := 0; x < 65536; x++ {
		b := cp(w)
		b[len(b)-2], b[len(b)-1] = byte(x), byte(x>>8)
		check(b, true, "body checksum value")
	}
	for _, c := range ref.Corpus() {
		if _, err := ref.Parse(c); err == nil {
			r.Count("real packets", 1)
			for k := 0; k < 60; k++ {
				b := cp(c)
				bit := rng.Intn(len(b) * 8)
				b[bit/8] ^= 1 << (bit % 8)
				check(b, false, fmt.Sprintf("real packet, bit %d flipped", bit))
			}
		}
	}
}

// Classify gives the result codes allowed for the bytes of a complete frame
// (empty: any but 0), and whether header and checksums are intact.
func Classify(b []byte) (codes map[uint8]bool, intact bool) {
	v := classify(b)
	return v.codes, v.ok
}
