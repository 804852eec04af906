package srv

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"verif/harness/h"
	"verif/harness/lib"
	"verif/harness/ref"
)

// Chunk is one write, followed by a pause.
type Chunk struct {
	B     []byte
	Pause time.Duration // below 0: the peer sends nothing more and says so
}

// Reply is one frame received.
type Reply struct {
	P   *ref.Packet // nil if it is not a valid packet
	Raw []byte
	Err error
	At  time.Time
}

func (x Reply) String() string {
	b := x.Raw
	if len(b) > 600 {
		b = b[:600]
	}
	s := hex.EncodeToString(b)
	if x.Err != nil {
		s += " (" + x.Err.Error() + ")"
	}
	return s
}

func stream(items []*Item) []byte {
	var b []byte
	for _, it := range items {
		b = append(b, it.Wire...)
	}
	return b
}

// Segment cuts a stream into writes.
func Segment(r *rand.Rand, items []*Item, how int) []Chunk {
	var out []Chunk
	switch how {
	case 0: // one write per packet
		for _, it := range items {
			out = append(out, Chunk{B: it.Wire})
		}
	case 1: // everything at once
		out = append(out, Chunk{B: stream(items)})
	default: // random pieces
		b := stream(items)
		for len(b) > 0 {
			n := 1 + r.Intn(1+r.Intn(3000))
			if n > len(b) {
				n = len(b)
			}
			p := time.Duration(0)
			if r.Intn(40) == 0 {
				p = time.Duration(r.Intn(3)) * time.Millisecond
			}
			out = append(out, Chunk{b[:n], p})
			b = b[n:]
		}
	}
	return out
}

// Exchange writes the chunks and reads until enough says so, the connection
// ends, or nothing comes for Patience. It then waits grace for surplus replies.
func Exchange(c *Client, chunks []Chunk, grace time.Duration, enough func([]Reply) bool) (got []Reply, err error) {
	var wg sync.WaitGroup
	wg.Add(1)
	var werr error
	ended := len(chunks) > 0 && chunks[len(chunks)-1].Pause < 0 // the receiver may close as well
	go func() {
		defer wg.Done()
		for _, ch := range chunks {
			if ch.Pause < 0 {
				c.End()
				return
			}
			if werr = c.Write(ch.B); werr != nil {
				return
			}
			if ch.Pause > 0 {
				time.Sleep(ch.Pause)
			}
		}
	}()
	defer wg.Wait()
	done := false
	for {
		if !done && enough(got) {
			done = true
		}
		wait := Patience
		if done {
			if wait = grace; wait == 0 {
				return got, nil
			}
		}
		p, raw, err := c.Next(wait)
		var br badReply
		switch {
		case err == nil:
			got = append(got, Reply{P: p, Raw: append([]byte(nil), raw...), At: time.Now()})
		case done && (err == errTimeout || ended && len(raw) == 0 && !errors.As(err, &br)):
			return got, nil
		case errors.As(err, &br) && br.frame:
			// a frame that is not a valid packet; go on behind it
			got = append(got, Reply{Raw: append([]byte(nil), raw...), Err: br.err, At: time.Now()})
		case errors.As(err, &br):
			got = append(got, Reply{Raw: append([]byte(nil), br.raw...), Err: br.err, At: time.Now()})
			return got, err
		default:
			return got, err
		}
	}
}

// Lockstep sends one packet at a time and waits for its PT_RESPONSE (none for
// a PT_RESPONSE); then it waits grace for surplus.
func Lockstep(c *Client, items []*Item, grace time.Duration, each func(i int, got []Reply)) (all []Reply, err error) {
	for i, it := range items {
		need := 1
		if it.Kind == "response" {
			need = 0
		}
		g := time.Duration(0)
		if i == len(items)-1 {
			g = grace
		}
		got, err := Exchange(c, []Chunk{{B: it.Wire}}, g, func(x []Reply) bool { return responses(x) >= need })
		all = append(all, got...)
		if err != nil {
			return all, err
		}
		if each != nil {
			each(i, got)
		}
	}
	return all, nil
}

// responses counts the PT_RESPONSE packets (and unreadable frames).
func responses(got []Reply) int {
	n := 0
	for _, g := range got {
		if g.P == nil || g.P.PT == ref.PtResponse {
			n++
		}
	}
	return n
}

func caseOf(items []*Item, at int, got []Reply, extra any) map[string]any {
	var is, gs []any
	for i := at - 6; i < at+4; i++ {
		if i >= 0 && i < len(items) {
			d := items[i].describe()
			d["index"] = i
			if i == at {
				d["here"] = true
			}
			is = append(is, d)
		}
	}
	for i := range got {
		if len(got) > 40 && (i < len(got)-20) {
			continue
		}
		gs = append(gs, got[i].String())
	}
	return map[string]any{"packets_around": is, "packets": len(items), "last_replies": gs, "replies": len(got), "extra": extra}
}

// trouble reports an exchange that ended early.
func trouble(r *h.Run, err error, key string, rep map[string]any) {
	if err == nil {
		return
	}
	if errors.Is(err, errTimeout) && Starved(5*time.Second) {
		r.Inconclusive("%s: %v, but this machine did not get to run for seconds", key, err)
		return
	}
	r.Violate(key, err.Error(), rep)
}

// fleet runs scenarios, each with a server and a recorder of its own.
func fleet(r *h.Run, name string, n int, f func(i int, rng *rand.Rand, s *Server, rec *Recorder)) {
	w := runtime.NumCPU()
	r.Parallel(name, n, w, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 4*w {
			return
		}
		rec := &Recorder{}
		s, err := Start(60*time.Second, rec)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		f(i, rng, s, rec)
		for _, b := range rec.Bad() {
			r.Violate("storage handed a bad record", b, map[string]any{"scenario": i})
		}
	})
	if n := fatals.Load(); n > 0 {
		r.Violate("log.Fatal", fmt.Sprintf("the server called log.Fatal %d times", n), nil)
	}
}

// confirmed lists the confirmed record numbers and their statuses.
func confirmed(p *ref.Packet) (rn []uint16, st []byte, err error) {
	for i := range p.Records {
		for _, s := range p.Records[i].Subs {
			w := s.V.Wire()
			if s.Type != ref.TResponse || len(w) != 3 {
				return nil, nil, fmt.Errorf("subrecord of type %d with %d bytes in a response", s.Type, len(w))
			}
			rn = append(rn, uint16(w[0])|uint16(w[1])<<8)
			st = append(st, w[2])
		}
	}
	return
}

// traffic makes a batch for scenario i.
func traffic(g *Gen, i, n int, damaged bool) []*Item {
	var out []*Item
	for len(out) < n {
		switch x := g.R.Intn(100); {
		case x < 12:
			out = append(out, g.Response())
		case damaged && x < 50:
			out = append(out, g.Damaged())
		default:
			out = append(out, g.Data())
		}
	}
	return out
}

// sizes of bodies that sit on the edges of usual buffers and integer widths
var edges = []int{60, 127, 128, 243, 244, 255, 256, 257, 500, 511, 512, 999, 1000, 1009, 1010, 1011, 1012, 1013, 1014, 1023, 1024, 1025, 1460, 2035, 2048, 4082, 4083, 4084, 4085, 4086, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32754, 32755, 32756, 32767, 32768, 32769, 40000, 50000, 65000, 65500, 65510, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65530, 65533, 65534, 65535}

// Damaged makes a packet that arrives complete but is damaged, based on a good
// one full of positions.
func (g *Gen) Damaged() *Item {
	r := g.R
	var base *Item
	for base == nil || len(base.P.Records) == 0 || len(base.P.Body()) < 4 || len(base.Wire) > 30000 {
		base = g.Data()
	}
	p := base.P
	hl := p.HL()
	w := append([]byte(nil), base.Wire...)
	it := &Item{Kind: "damaged", P: p}
	n := len(w) - hl - 2
	for {
		w = append(w[:0], base.Wire...)
		it.What = ""
		switch r.Intn(13) {
		case 0, 1:
			bit := r.Intn(n * 8)
			w[hl+bit/8] ^= 1 << (bit % 8)
			it.What = "body bit flipped"
		case 2:
			bit := r.Intn(16)
			w[hl+n+bit/8] ^= 1 << (bit % 8)
			it.What = "body checksum bit flipped"
		case 3, 4: // header, except what the framing rests on
			k := r.Intn(hl - 4)
			at := []int{1, 2, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15}[k]
			w[at] ^= 1 << r.Intn(8)
			it.What = fmt.Sprintf("header byte %d: bit flipped", at)
		case 5: // several bytes
			for k := 2 + r.Intn(6); k > 0; k-- {
				w[hl+r.Intn(n)] = byte(r.Uint32())
			}
			it.What = "body bytes overwritten"
		case 6: // header length larger than the real one, the frame padded accordingly
			x := hl + 1 + r.Intn(40)
			if r.Intn(4) == 0 {
				x = 255
			}
			w[3] = byte(x)
			w = append(w, make([]byte, x-hl)...)
			r.Read(w[len(base.Wire):])
			switch r.Intn(3) {
			case 0:
				w[hl-1] = ref.CRC8(w[:hl-1])
			case 1:
				w[x-1] = ref.CRC8(w[:x-1])
			}
			it.What = fmt.Sprintf("header length %d", x)
		case 7: // header length 11 with routing fields: the frame is shorter
			if hl != 16 || n < 10 {
				continue
			}
			x := 11 + r.Intn(5)
			w[3] = byte(x)
			if r.Intn(2) == 0 {
				w[x-1] = ref.CRC8(w[:x-1])
			}
			w = w[:x+n+2]
			it.What = fmt.Sprintf("header length %d with routing", x)
		case 8: // unsupported type, checksums right
			w[9] = byte(2 + r.Intn(254))
			w[hl-1] = ref.CRC8(w[:hl-1])
			it.What = fmt.Sprintf("packet type %d", w[9])
		case 9: // unknown subrecord type, checksums right
			q := *p
			q.Records = append([]ref.Record(nil), p.Records...)
			rec := &q.Records[r.Intn(len(q.Records))]
			rec.Subs = append([]ref.Sub(nil), rec.Subs...)
			t := []byte{2, 3, 4, 6, 8, 10, 13, 14, 22, 23, 26, 28, 29, 50, 64, 100, 128, 200, 255}[r.Intn(19)]
			c := make([]byte, r.Intn(30))
			r.Read(c)
			at := r.Intn(len(rec.Subs) + 1)
			rec.Subs = append(rec.Subs[:at:at], append([]ref.Sub{{Type: t, V: ref.Raw{B: c}}}, rec.Subs[at:]...)...)
			w = q.Wire()
			it.What = fmt.Sprintf("unknown subrecord type %d", t)
			if len(q.Body()) > 65535 {
				continue
			}
		case 10: // a content cut short, lengths consistent
			k := r.Intn(len(p.Records))
			if len(p.Records[k].Subs) == 0 {
				continue
			}
			j := r.Intn(len(p.Records[k].Subs))
			s := p.Records[k].Subs[j]
			c := s.V.Wire()
			if len(c) == 0 {
				continue
			}
			m := r.Intn(len(c))
			if lib.PrefixOK(s, c, m) {
				continue
			}
			q := *p
			q.Records = append([]ref.Record(nil), p.Records...)
			q.Records[k].Subs = append([]ref.Sub(nil), p.Records[k].Subs...)
			q.Records[k].Subs[j] = ref.Sub{Type: s.Type, V: ref.Raw{B: c[:m]}}
			w = q.Wire()
			it.What = fmt.Sprintf("content of subrecord type %d cut to %d bytes", s.Type, m)
		case 11: // a record length that does not fit, checksums right
			if len(p.Records[0].Subs) == 0 && len(p.Records) == 1 {
				continue // a length with nothing behind it: existing tests want it accepted
			}
			body := p.Body()
			l := int(body[0]) | int(body[1])<<8
			x := []int{l + 100000, 65535, l + 1 + r.Intn(20)}[r.Intn(3)]
			if x <= n-7 || x > 65535 {
				continue
			}
			body[0], body[1] = byte(x), byte(x>>8)
			w = p.WireBody(body)
			it.What = fmt.Sprintf("record length %d of %d", x, l)
		}
		if it.What == "" { // nothing but the start of a record, checksums right
			k := 1 + r.Intn(6)
			w = p.WireBody(p.Body()[:k])
			it.What = fmt.Sprintf("record header cut to %d bytes", k)
		}
		it.Wire = w
		it.PID = uint16(w[7]) | uint16(w[8])<<8
		it.Codes = nil
		// what the bytes say by themselves
		full, err := ref.FrameLen(w)
		if err != nil || full != len(w) {
			continue
		}
		codes, intact := lib.Classify(w)
		if intact {
			if codes = nil; it.What == "" || !malformed(it.What) {
				continue // the damage cancelled out
			}
		}
		it.Codes = codes
		return it
	}
}

func malformed(what string) bool {
	for _, p := range []string{"unknown subrecord", "content of", "record length", "record header"} {
		if len(what) >= len(p) && what[:len(p)] == p {
			return true
		}
	}
	return false
}
