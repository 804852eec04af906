package srv

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/h"
)

// sink is a storage that keeps nothing; some of its saves fail.
type sink struct{ n, failed atomic.Int64 }

func (s *sink) Save(m msg) error {
	b, err := m.ToBytes()
	if err != nil {
		return err
	}
	if n := s.n.Add(1); n%97 == int64(len(b))%97 {
		s.failed.Add(1)
		return errors.New("storage failure on purpose")
	}
	return nil
}

// use is what a process holds at one moment.
type use struct {
	Heap       int64 `json:"heap_bytes"`
	Objects    int64 `json:"heap_objects"`
	Goroutines int   `json:"goroutines"`
	Fds        int   `json:"descriptors"`
	Packets    int64 `json:"packets_so_far"`
}

func usage(packets int64) use {
	var ms runtime.MemStats
	for k := 0; k < 4; k++ { // pools are emptied by two collections
		runtime.GC()
	}
	runtime.ReadMemStats(&ms)
	d, _ := os.ReadDir("/proc/self/fd")
	return use{int64(ms.HeapAlloc), int64(ms.Mallocs - ms.Frees), runtime.NumGoroutine(), len(d), packets}
}

// settled is usage once goroutines of ended connections are gone.
func settled(packets int64, goroutines int) use {
	last, since := runtime.NumGoroutine(), time.Now()
	for last > goroutines && time.Since(since) < 4*time.Second { // as long as some still end
		time.Sleep(20 * time.Millisecond)
		if n := runtime.NumGoroutine(); n < last {
			last, since = n, time.Now()
		}
	}
	return usage(packets)
}

// grows judges a series of measurements with equal work in between; what exceeds the
// limits once is measured again, since caches that fill up are no growth.
func grows(r *h.Run, what string, perUnit, units int64, steps int, measure func() (use, bool)) {
	for try := 0; ; try++ {
		var u []use
		for k := 0; k <= steps; k++ {
			m, ok := measure()
			if !ok {
				return
			}
			u = append(u, m)
		}
		r.Count("measurements", int64(len(u)))
		first, last := u[0], u[steps]
		n := units * int64(steps)
		key, msg := "", ""
		switch {
		case last.Heap-first.Heap > perUnit*n:
			key, msg = "memory grows with "+what, fmt.Sprintf("heap of %d bytes grows to %d over %d", first.Heap, last.Heap, n)
		case last.Goroutines-first.Goroutines > 4+steps:
			key, msg = "goroutines grow with "+what, fmt.Sprintf("%d, then %d", first.Goroutines, last.Goroutines)
		case last.Fds-first.Fds > 4+steps:
			key, msg = "descriptors grow with "+what, fmt.Sprintf("%d, then %d", first.Fds, last.Fds)
		}
		if key == "" {
			r.Sample(map[string]any{"what": what, "measurements": u})
			return
		}
		if try == 2 {
			r.Violate(key, msg, map[string]any{"measurements": u})
			return
		}
		r.Count("series measured again", 1)
	}
}

// S12 - the receiver forgets what it has handled.
func S12(r *h.Run) {
	r.Rule = "one evaluation per packet or connection handled between the measurements; distinct: kinds of traffic and shapes of packets"
	longSessions(r)
	if !r.Violated() {
		manySessions(r)
	}
}

// kindsS12 are the kinds of traffic measured, each on its own so that nothing hides in the average.
var kindsS12 = []struct {
	name string
	make func(g *Gen) *Item
}{
	{"positions", func(g *Gen) *Item { return g.Sized(60 + g.R.Intn(60)) }},
	{"mixed telemetry", func(g *Gen) *Item {
		it := g.Data()
		for len(it.Wire) > 1500 {
			it = g.Data()
		}
		return it
	}},
	{"identifications", func(g *Gen) *Item { return g.Identify(g.R.Intn(8)) }},
	{"confirmations", func(g *Gen) *Item { return g.Response() }},
	{"damaged packets", func(g *Gen) *Item { return g.Damaged() }},
	{"empty records", func(g *Gen) *Item { return g.Empties(1 + g.R.Intn(3)) }},
}

func longSessions(r *h.Run) {
	const conns = 8
	for _, ttl := range []time.Duration{time.Hour} {
		st := &sink{}
		s, err := Start(ttl, st)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		var cs []*Client
		var gs []*Gen
		for k := 0; k < conns; k++ {
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "no connection", nil)
				return
			}
			g := NewGen(r.Rng("long", k))
			g.AnyOID, g.OIDBase = false, uint32(k)<<28
			cs, gs = append(cs, c), append(gs, g)
		}
		var all atomic.Int64
		totals := make([]atomic.Int64, len(kindsS12))
		lap := func(q, n int, measured bool) bool {
			kind, total := &kindsS12[q], &totals[q]
			{
				var wg sync.WaitGroup
				var bad atomic.Bool
				for k := range cs {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						c, g := cs[k], gs[k]
						for left := n / conns; left > 0 && !bad.Load(); {
							var items []*Item
							need := 0
							for len(items) < 256 && len(items) < left {
								g.OIDBase += 4
								it := kind.make(g)
								if it.Kind != "response" {
									need++
								}
								items = append(items, it)
							}
							left -= len(items)
							items = append(items, g.Sentinel())
							need++
							var chunks []Chunk
							b := stream(items)
							for len(b) > 0 {
								m := min(len(b), 16384)
								chunks = append(chunks, Chunk{B: b[:m]})
								b = b[m:]
							}
							got, err := Exchange(c, chunks, 0, func(x []Reply) bool { return responses(x) >= need })
							if err != nil {
								bad.Store(true)
								trouble(r, err, "long session ends early", map[string]any{"kind": kind.name, "replies": len(got), "needed": need})
								return
							}
							for _, it := range items {
								if measured { // without this check keeping anything itself
									r.Eval(kind.name)
								} else {
									r.Eval(kind.name + it.sig())
								}
							}
							total.Add(int64(len(items)))
							all.Add(int64(len(items)))
							// result code packets of this batch that are still on their way
							c.drain(got, items)
						}
					}(k)
				}
				wg.Wait()
				return !bad.Load()
			}
		}
		n := r.Scale(6000, 60000)
		for q := range kindsS12 {
			if !lap(q, 2*n, false) {
				return
			}
		}
		base := usage(all.Load())
		for q, kind := range kindsS12 {
			total := &totals[q]
			if kind.name == "positions" { // every packet id once
				if !lap(q, 65536+1000, true) {
					return
				}
			}
			grows(r, kind.name+" on open connections", 4, int64(n), 4, func() (use, bool) {
				ok := lap(q, n, true)
				return usage(total.Load()), ok
			})
			r.Count("packets of long sessions: "+kind.name, total.Load())
			r.Count("packets of long sessions", total.Load())
			if r.Violated() {
				return
			}
		}
		// containers that grow by doubling may stay the same over one series, but not over
		// several times the packets
		for try, from := 0, base; ; try++ {
			u := usage(all.Load())
			m := u.Packets - from.Packets
			if u.Heap-from.Heap <= 4*m {
				r.Sample(map[string]any{"what": "all traffic", "measurements": []use{from, u}})
				break
			}
			if try == 1 {
				r.Violate("memory grows with the packets of open connections", fmt.Sprintf("heap of %d bytes grows to %d over %d packets of all kinds", from.Heap, u.Heap, m), map[string]any{"measurements": []use{base, from, u}})
				return
			}
			r.Count("series measured again", 1)
			from = u
			for round := int64(0); all.Load() < 2*u.Packets; round++ {
				for q := range kindsS12 {
					if !lap(q, n, true) {
						return
					}
				}
			}
		}
		r.Count("records handed to storage", st.n.Load())
		r.Count("failed saves", st.failed.Load())
		for _, c := range cs {
			c.Abort()
		}
		s.Stop()
	}
}

// drain reads the result code packets that follow the last responses.
func (c *Client) drain(got []Reply, items []*Item) {
	want := 0
	for _, it := range items {
		if it.Kind == "data" && it.Result {
			want++
		}
	}
	have := len(got) - responses(got)
	for ; have < want; have++ {
		if _, _, err := c.Next(5 * time.Second); err != nil {
			return
		}
	}
}

// manySessions connects, exchanges something and leaves in different ways, over and over.
func manySessions(r *h.Run) {
	ttl := 300 * time.Millisecond
	st := &sink{}
	s, err := Start(ttl, st)
	if err != nil {
		r.Violate("server does not start", err.Error(), nil)
		return
	}
	defer s.Stop()
	time.Sleep(2 * ttl)
	base := runtime.NumGoroutine()
	ways := []string{"closed between packets", "reset between packets", "closed in the middle of a packet", "silent until the time-out", "closed by the server"}
	n := r.Scale(800, 8000)
	for w, way := range ways {
		m := n
		if w == 3 {
			m = n / 2
		}
		lap := 0
		round := func() {
			lap++
			r.Parallel(fmt.Sprint("sessions ", w, lap), m, 32, func(i int, rng *rand.Rand) {
				c, err := Dial(s.Addr)
				if err != nil {
					return
				}
				defer c.Close()
				g := NewGen(rng)
				if i%4 > 0 {
					it := g.Sized(60)
					c.Write(it.Wire)
					if _, _, err := c.Next(Patience); err != nil {
						trouble(r, err, "short session not served", it.describe())
						return
					}
				}
				b := g.Sized(100).Wire
				switch w {
				case 1:
					c.Abort()
				case 2:
					c.Write(b[:1+rng.Intn(len(b)-1)])
				case 3:
					c.Write(b[:rng.Intn(len(b))])
					c.Next(Patience)
				case 4:
					b[0] = 7
					c.Write(b)
					c.Next(Patience)
				}
				r.Eval(way)
				r.Count("short sessions: "+way, 1)
			})
		}
		round()
		grows(r, "connections "+way, 64, int64(m), 3, func() (use, bool) {
			round()
			return settled(int64(lap*m), base), true
		})
		if r.Violated() {
			return
		}
	}
}
