package lib

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/h"
	"verif/harness/ref"
)

// kinds of decoder entry points: "pkg", "sds", "rds", "resp" and "sr<type>".
func kinds() []string {
	k := []string{"pkg", "sds", "rds", "resp"}
	for _, t := range ref.AllTypes {
		k = append(k, fmt.Sprintf("sr%d", t))
	}
	return k
}

// DecodeAny runs one decoder on b and re-encodes the result.
func DecodeAny(kind string, b []byte) (ok bool) {
	var v interface {
		Encode() ([]byte, error)
	}
	var err error
	switch kind {
	case "pkg":
		p := &egts.Package{}
		_, err = p.Decode(b)
		v = p
		if err == nil {
			_, _ = p.ToBytes()
		}
	case "sds":
		s := &egts.ServiceDataSet{}
		err = s.Decode(b)
		v = s
	case "rds":
		s := &egts.RecordDataSet{}
		err = s.Decode(b)
		v = s
	case "resp":
		s := &egts.PtResponse{}
		err = s.Decode(b)
		v = s
	default:
		var t byte
		fmt.Sscanf(kind, "sr%d", &t)
		s := NewSection(t)
		err = s.Decode(b)
		v = s
	}
	_, _ = v.Encode()
	if l, is := v.(interface{ Length() uint16 }); is {
		_ = l.Length()
	}
	return err == nil
}

var lenPool = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 15, 16, 20, 21, 24, 127, 128, 255, 256, 1023, 4095, 32767, 32768, 65533, 65534, 65535}

func hostileLen(r *rand.Rand, real int) uint16 {
	switch r.Intn(6) {
	case 0:
		return uint16(real)
	case 1:
		return uint16(real + r.Intn(7) - 3)
	case 2:
		return uint16(lenPool[r.Intn(len(lenPool))])
	case 3:
		return 0
	case 4:
		return 65535
	default:
		return uint16(r.Uint32())
	}
}

// hostileSubs emits subrecords with contradictory lengths, wrong types and cut contents.
func hostileSubs(r *rand.Rand, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		t := ref.AllTypes[r.Intn(len(ref.AllTypes))]
		c := ref.RandValue(r, t).Wire()
		switch r.Intn(8) {
		case 0:
			c = c[:r.Intn(len(c)+1)]
		case 1:
			x := make([]byte, r.Intn(300))
			r.Read(x)
			c = x
		case 2:
			c = mutate(r, c)
		case 3:
			c = append(c, c...)
		}
		if r.Intn(12) == 0 {
			t = byte(r.Uint32())
		}
		l := uint16(len(c))
		if r.Intn(5) == 0 {
			l = hostileLen(r, len(c))
		}
		b = append(b, t, byte(l), byte(l>>8))
		b = append(b, c...)
	}
	return b
}

func hostileRecords(r *rand.Rand, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		rd := hostileSubs(r, []int{0, 1, 1, 2, 3, 10}[r.Intn(6)])
		l := uint16(len(rd))
		if r.Intn(5) == 0 {
			l = hostileLen(r, len(rd))
		}
		f := byte(r.Uint32())
		b = append(b, byte(l), byte(l>>8), byte(r.Uint32()), byte(r.Uint32()), f)
		for k := 0; k < 3; k++ {
			if f>>k&1 == 1 {
				b = binary.LittleEndian.AppendUint32(b, r.Uint32())
			}
		}
		b = append(b, byte(r.Uint32()), byte(r.Uint32()))
		b = append(b, rd...)
	}
	return b
}

// hostilePacket wraps a body with right or contradictory header fields, checksums mostly right.
func hostilePacket(r *rand.Rand, body []byte) []byte {
	p := ref.RandHeader(r)
	p.PT = byte(r.Intn(2))
	if r.Intn(10) == 0 {
		p.PT = byte(r.Uint32())
	}
	if len(body) > 65535 {
		body = body[:65535]
	}
	w := p.WireBody(body)
	switch r.Intn(5) {
	case 0: // header length field
		w[3] = []byte{0, 1, 9, 10, 11, 12, 15, 16, 17, 255, byte(r.Uint32())}[r.Intn(11)]
		fixHeader(w, int(w[3]))
	case 1: // frame data length
		n := hostileLen(r, len(body))
		w[5], w[6] = byte(n), byte(n>>8)
		fixHeader(w, p.HL())
	case 2: // flags
		w[2] = byte(r.Uint32())
		fixHeader(w, p.HL())
	}
	if r.Intn(8) == 0 {
		w = w[:r.Intn(len(w)+1)]
	}
	return w
}

func fixHeader(w []byte, hl int) {
	if hl >= 1 && hl <= len(w) {
		w[hl-1] = ref.CRC8(w[:hl-1])
	}
}

// fixSums recomputes both checksums of a packet in place.
func fixSums(w []byte) {
	if len(w) < 11 {
		return
	}
	hl := int(w[3])
	fixHeader(w, hl)
	n := int(w[5]) | int(w[6])<<8
	if n > 0 && hl+n+2 <= len(w) {
		c := ref.CRC16(w[hl : hl+n])
		w[hl+n], w[hl+n+1] = byte(c), byte(c>>8)
	}
}

func mutate(r *rand.Rand, in []byte) []byte {
	b := append([]byte(nil), in...)
	for k := 1 + r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			return append(b, byte(r.Uint32()))
		}
		i := r.Intn(len(b))
		if r.Intn(3) == 0 && len(b) > 20 {
			i = r.Intn(20)
		}
		switch r.Intn(7) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = 0
		case 2:
			b[i] = 0xFF
		case 3:
			b[i] = byte(r.Uint32())
		case 4:
			b = append(b[:i:i], b[i+1:]...)
		case 5:
			b = append(b[:i:i], append([]byte{byte(r.Uint32())}, b[i:]...)...)
		case 6:
			j := i + r.Intn(len(b)-i+1)
			if r.Intn(2) == 0 {
				b = append(b[:i:i], b[j:]...)
			} else {
				b = append(b[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
			}
		}
	}
	if len(b) > 66000 {
		b = b[:66000]
	}
	return b
}

// giants are inputs of maximal size built to make naive decoders blow up.
func giants(r *rand.Rand) map[string][]byte {
	rep := func(unit []byte, max int) []byte {
		var b []byte
		for len(b)+len(unit) <= max {
			b = append(b, unit...)
		}
		return b
	}
	g := map[string][]byte{}
	g["empty records"] = rep([]byte{0, 0, 1, 0, 0, 2, 2}, 65535)
	g["record length 65535 over and over"] = rep([]byte{0xFF, 0xFF, 1, 0, 0, 2, 2}, 65535)
	rec := func(rd []byte) []byte {
		return append([]byte{byte(len(rd)), byte(len(rd) >> 8), 1, 0, 0, 2, 2}, rd...)
	}
	sub := func(t byte, c []byte) []byte { return append([]byte{t, byte(len(c)), byte(len(c) >> 8)}, c...) }
	const m = 65535 - 7
	for _, t := range ref.AllTypes {
		g[fmt.Sprintf("empty subrecords of type %d", t)] = rec(rep([]byte{t, 0, 0}, m))
		g[fmt.Sprintf("one subrecord of type %d, all zero", t)] = rec(sub(t, make([]byte, m-3)))
		g[fmt.Sprintf("one subrecord of type %d, all ones", t)] = rec(sub(t, rep([]byte{0xFF}, m-3)))
		x := make([]byte, m-3)
		r.Read(x)
		g[fmt.Sprintf("one subrecord of type %d, random", t)] = rec(sub(t, x))
		g[fmt.Sprintf("minimal subrecords of type %d", t)] = rec(rep(sub(t, ref.RandValue(r, t).Wire()), m))
	}
	// records nested in records, the way a recursive decoder would see them
	g["confirmations followed by records"] = rec(sub(0, append([]byte{1, 0, 0}, rep(rec(sub(0, []byte{1, 0, 0})), m-6)...)))
	nested := []byte{1, 0, 0}
	for len(nested)+13 < m-3 {
		nested = append([]byte{1, 0, 0}, rec(sub(0, nested))...)
	}
	g["deeply nested confirmations"] = rec(sub(0, nested))
	// protobuf: empty nested messages, deep groups
	for f := 7; f <= 24; f++ {
		tag := []byte{byte(f<<3|2)&0x7F | 0x80, byte(f >> 4), 0}
		if f < 16 {
			tag = []byte{byte(f<<3 | 2), 0}
		}
		g[fmt.Sprintf("egts+ with empty messages in field %d", f)] = rec(sub(15, append([]byte{8, 1, 0x15, 0, 0, 0, 0, 0x25, 0, 0, 0, 0}, rep(tag, m-20)...)))
	}
	g["egts+ nested groups"] = rec(sub(15, rep([]byte{0x83, 0x06}, m-3)))
	g["egts+ packed enums"] = rec(sub(15, append([]byte{0x1A, 0xF0, 0xFF, 0x03}, rep([]byte{1}, m-8)...)))
	g["egts+ huge length"] = rec(sub(15, []byte{8, 1, 0x3A, 0xFF, 0xFF, 0xFF, 0xFF, 0x07}))
	return g
}

// L01: decoding is total and uses memory proportional to the input.
func L01(r *h.Run) {
	r.Rule = "inputs are random bytes, mutated valid packets (checksums repaired), hand-built packets and sections with contradictory lengths/flags around right checksums, and maximal-size patterns; each goes through one decoder entry point and back through its encoder. Non-trivial: at least one byte, counted distinct by (entry point, bytes)."
	done := make(chan struct{})
	go watchdog(r, done)
	ks := kinds()
	one := func(kind string, b []byte, how string) {
		end := r.Busy(kind, b)
		ok := false
		r.Guard("decode "+kind, func() any { return bytesCase(kind, b) }, func() { ok = DecodeAny(kind, b) })
		end()
		sig := ""
		if len(b) > 0 {
			sig = kind + string(b)
		}
		r.Eval(sig)
		if ok {
			r.Count("decoded without error", 1)
		} else {
			r.Count("rejected", 1)
		}
	}
	corpus := ref.Corpus()
	r.Parallel("hostile", r.Scale(64, 3000), runtime.NumCPU(), func(i int, rng *rand.Rand) {
		for n := 0; n < 1200; n++ {
			kind := "pkg"
			if rng.Intn(2) == 0 {
				kind = ks[rng.Intn(len(ks))]
			}
			var b []byte
			how := ""
			switch x := rng.Intn(8); {
			case x == 0:
				how = "random"
				b = make([]byte, []int{0, 1, 2, 3, 5, 8, 11, 16, 30, 100, 1000}[rng.Intn(11)])
				rng.Read(b)
				if kind == "pkg" {
					fixSums(b)
				}
			case x <= 2:
				how = "mutated packet"
				var w []byte
				if rng.Intn(3) == 0 {
					w = corpus[rng.Intn(len(corpus))]
				} else {
					w = gen(rng, rng.Intn(39)).Wire()
				}
				b = mutate(rng, w)
				if rng.Intn(3) > 0 {
					fixSums(b)
				}
				if kind != "pkg" {
					b = stripTo(kind, b)
				}
			case kind == "pkg":
				how = "hostile records in a packet"
				body := hostileRecords(rng, []int{0, 1, 1, 2, 4, 12}[rng.Intn(6)])
				if rng.Intn(2) == 0 {
					body = append([]byte{1, 2, 0}, body...)
				}
				b = hostilePacket(rng, body)
			case kind == "sds" || kind == "resp":
				how = "hostile records"
				b = hostileRecords(rng, 1+rng.Intn(4))
				if kind == "resp" {
					b = append([]byte{1, 2, 0}, b...)
				}
			case kind == "rds":
				how = "hostile subrecords"
				b = hostileSubs(rng, 1+rng.Intn(5))
			default:
				how = "hostile content"
				var t byte
				fmt.Sscanf(kind, "sr%d", &t)
				b = ref.RandValue(rng, t).Wire()
				if rng.Intn(2) == 0 {
					b = b[:rng.Intn(len(b)+1)]
				}
				if rng.Intn(2) == 0 {
					b = mutate(rng, b)
				}
			}
			r.Count(how, 1)
			one(kind, b, how)
			if i == 0 && n%100 == 0 {
				r.Sample(map[string]any{"entry": kind, "how": how, "hex": hexs(b)})
			}
		}
	})
	// maximal inputs, and memory: one at a time, so that the allocation counter is ours
	rng := r.Rng("giants")
	measure := func(kind, name string, b []byte) {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		one(kind, b, "giant")
		runtime.ReadMemStats(&m1)
		d := m1.TotalAlloc - m0.TotalAlloc
		bound := uint64(2<<20) + 4000*uint64(len(b))
		r.Count("memory measurements", 1)
		if d > bound {
			r.Violate("memory "+kind, fmt.Sprintf("%s: %d bytes allocated to decode and re-encode %d bytes (bound %d)", name, d, len(b), bound), bytesCase(kind, b))
		}
	}
	gs := giants(rng)
	for _, name := range sortedKeys(gs) {
		body := gs[name]
		p := ref.RandHeader(rng)
		measure("pkg", name, p.WireBody(body))
		measure("sds", name, body)
		p.PT = ref.PtResponse
		b2 := append([]byte{1, 0, 0}, body...)
		if len(b2) > 65535 {
			b2 = b2[:65535]
		}
		measure("pkg", name, p.WireBody(b2))
		if len(body) > 10 {
			measure("rds", name, body[7:])
			measure(fmt.Sprintf("sr%d", knownType(body[7])), name, body[10:])
		}
	}
	for i := 0; i < r.Scale(400, 6000); i++ {
		b := hostilePacket(rng, hostileRecords(rng, 1+rng.Intn(5)))
		measure("pkg", "hostile packet", b)
	}
	for _, c := range corpus {
		measure("pkg", "real packet", c)
	}
	close(done)
}

func knownType(t byte) byte {
	for _, x := range ref.AllTypes {
		if x == t {
			return t
		}
	}
	return ref.TPos
}

// stripTo cuts the layers around a section off a mutated packet.
func stripTo(kind string, b []byte) []byte {
	cut := func(n int) {
		if len(b) > n {
			b = b[n:]
		}
	}
	cut(11)
	switch {
	case kind == "rds":
		cut(7)
	case strings.HasPrefix(kind, "sr"):
		cut(10)
	}
	return b
}

// watchdog looks for a decode that does not come back. A suspect is run again
// alone in a child with a CPU limit, so that a busy machine is not mistaken for
// an endless loop.
func watchdog(r *h.Run, done chan struct{}) {
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
		}
		kind, in, ok := r.Stuck(20 * time.Second)
		if !ok {
			continue
		}
		f := filepath.Join(r.OutDir, "stuck.bin")
		os.WriteFile(f, in, 0o644)
		exe, _ := os.Executable()
		cmd := exec.Command("bash", "-c", `ulimit -t 30; exec "$0" one "$1" "$2"`, exe, kind, f)
		out, err := cmd.CombinedOutput()
		if err == nil {
			continue // it does come back, the machine was slow
		}
		r.Violate("hang "+kind, fmt.Sprintf("decoding does not return within 30 s of CPU time (child: %v %.300s)", err, out), bytesCase(kind, in))
		r.Finish()
		os.Exit(1)
	}
}
