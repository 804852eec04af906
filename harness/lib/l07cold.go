package lib

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

// Cold is the body of a process whose very first calls of the codec come from several
// goroutines at once: whatever the codec sets up on first use is set up under concurrency.
// Nothing of the codec is called before the first barrier.
func Cold(seed int64) {
	rng := rand.New(rand.NewSource(seed))
	type step struct {
		name string
		p    *ref.Packet
		wire []byte
		enc  bool
		json bool
	}
	var steps []step
	for i, t := range ref.AllTypes {
		p := ref.RandHeader(rng)
		p.RTE = byte(i+int(seed)) & 1
		if i%5 == 4 {
			p.PT, p.RPID = ref.PtResponse, uint16(i)
		}
		p.Records = []ref.Record{ref.RandRecord(rng, []byte{t}, 2)}
		p = evenSpeed(p)
		w := p.Wire()
		steps = append(steps, step{fmt.Sprintf("decode %d", t), p, w, false, false}, step{fmt.Sprintf("encode %d", t), p, w, true, i == 3})
		bad := append([]byte(nil), w...)
		bad[rng.Intn(len(bad))] ^= byte(1 + rng.Intn(255))
		steps = append(steps, step{fmt.Sprintf("decode damaged %d", t), nil, bad, false, false})
	}
	rng.Shuffle(len(steps), func(a, b int) { steps[a], steps[b] = steps[b], steps[a] })
	const n = 8
	var mu sync.Mutex
	fail := func(s step, key, msg string) {
		mu.Lock()
		defer mu.Unlock()
		fmt.Printf("COLD|%s|%s|%s|%s\n", key, s.name, hexs(s.wire), strings.ReplaceAll(msg, "\n", " "))
	}
	for _, s := range steps {
		own := make([][]byte, n)
		for g := range own {
			own[g] = append([]byte(nil), s.wire...)
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				o := conv.Opt{}
				e := (*pkgT)(nil)
				if s.enc {
					e = conv.ToEgts(s.p, o)
				}
				<-start
				if s.enc {
					b, err := e.Encode()
					if err != nil {
						fail(s, "first concurrent encodings fail", err.Error())
					} else if d := conv.SameWire(b, s.p); d != "" {
						fail(s, "first concurrent encodings differ", d)
					}
					if s.json {
						if _, err := e.ToBytes(); err != nil {
							fail(s, "first concurrent encodings fail", err.Error())
						}
					}
					return
				}
				var v pkgT
				code, err := v.Decode(own[g])
				if s.p == nil {
					if err == nil || code == 0 {
						fail(s, "damaged packet accepted by the first concurrent decodings", fmt.Sprint(code, err))
					}
					return
				}
				if err != nil || code != 0 {
					fail(s, "first concurrent decodings fail", fmt.Sprint(code, err))
					return
				}
				if b, err := v.Encode(); err != nil {
					fail(s, "first concurrent decodings fail", err.Error())
				} else if d := conv.SameWire(b, s.p); d != "" {
					fail(s, "first concurrent decodings differ", d)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	fmt.Printf("COLD-STEPS|%d\n", len(steps))
}

// coldStarts runs such processes.
func coldStarts(r *h.Run) {
	r.Parallel("cold", r.Scale(12, 150), 3, func(i int, rng *rand.Rand) {
		c := exec.Command(os.Args[0], "cold", fmt.Sprint(rng.Int63()))
		c.Dir = r.OutDir
		var se strings.Builder
		c.Stderr = &se
		out, err := c.Output()
		done := false
		sc := bufio.NewScanner(strings.NewReader(string(out)))
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			f := strings.SplitN(sc.Text(), "|", 5)
			switch {
			case f[0] == "COLD" && len(f) == 5:
				r.Violate(f[1], f[2]+": "+f[4], map[string]any{"step": f[2], "wire": f[3], "args": c.Args})
			case f[0] == "COLD-STEPS":
				var n int64
				fmt.Sscan(f[1], &n)
				r.Count("first calls made concurrently", n)
				done = true
			}
		}
		if err != nil || !done {
			if h.InRepo(se.String()) {
				r.Violate("first concurrent calls crash", se.String()[:min(len(se.String()), 2000)], map[string]any{"args": c.Args, "stderr": se.String()})
			} else {
				r.Inconclusive("cold start: %v %s", err, se.String())
			}
			return
		}
		r.Count("cold starts", 1)
		r.Eval(fmt.Sprint("cold", i))
	})
}
