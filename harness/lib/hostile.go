package lib

import (
	"math/rand"
	"sort"
	"sync"

	"verif/harness/ref"
)

// Hostile makes a stretch of bytes meant to upset a receiver: noise, mutated
// packets, contradictory lengths behind right checksums, truncations.
func Hostile(r *rand.Rand) (b []byte, kind string) {
	corpusOnce.Do(func() { corpus = ref.Corpus() })
	switch x := r.Intn(12); {
	case x == 0:
		b = make([]byte, 1+r.Intn(1+r.Intn(3000)))
		r.Read(b)
		if r.Intn(2) == 0 {
			b[0] = 1
		}
		return b, "noise"
	case x <= 2:
		w := gen(r, r.Intn(39)).Wire()
		if r.Intn(3) == 0 {
			w = corpus[r.Intn(len(corpus))]
		}
		b = mutate(r, w)
		if r.Intn(3) > 0 {
			fixSums(b)
		}
		return b, "mutated packet"
	case x <= 4: // body mutated, framing right
		p := gen(r, r.Intn(39))
		return p.WireBody(cap64k(mutate(r, p.Body()))), "mutated body"
	case x == 5:
		giantOnce.Do(func() {
			g := giants(rand.New(rand.NewSource(1)))
			for k := range g {
				giantNames = append(giantNames, k)
			}
			sort.Strings(giantNames)
			for _, k := range giantNames {
				giantBodies = append(giantBodies, cap64k(g[k]))
			}
		})
		p := ref.RandHeader(r)
		return p.WireBody(giantBodies[r.Intn(len(giantBodies))]), "giant"
	case x == 6:
		w := gen(r, r.Intn(39)).Wire()
		return w[:r.Intn(len(w))], "truncated packet"
	case x == 7:
		// every header byte free, checksum of the header right
		w := gen(r, r.Intn(39)).Wire()
		for k := 1 + r.Intn(6); k > 0; k-- {
			w[1+r.Intn(9)] = byte(r.Uint32())
		}
		fixSums(w)
		return w, "header fields"
	default:
		return hostilePacket(r, hostileRecords(r, []int{0, 1, 1, 2, 4, 12}[r.Intn(6)])), "contradictory lengths"
	}
}

var (
	corpusOnce  sync.Once
	corpus      [][]byte
	giantOnce   sync.Once
	giantNames  []string
	giantBodies [][]byte
)

func cap64k(b []byte) []byte {
	if len(b) > 65535 {
		return b[:65535]
	}
	return b
}
