// Package h is the runtime of the checks: seeded randomness, workers, counting
// of what was observed, verdicts and replay files.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Run struct {
	ID       string
	Seed     int64
	Thorough bool
	OutDir   string // replay files and the result go here
	Bin      map[string]string

	Rule        string
	Assumptions []string

	evals    atomic.Int64
	mu       sync.Mutex
	distinct map[uint64]struct{}
	samples  []any
	counters map[string]int64
	viol     []Violation
	incon    []string
	perKey   map[string]int
	start    time.Time
	current  sync.Map // shard -> *item
}

type Violation struct {
	Key    string `json:"key"`
	Msg    string `json:"message"`
	Replay string `json:"replay"`
}

// Scale picks the workload size for the tier.
func (r *Run) Scale(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

func New(id string) *Run {
	r := &Run{ID: id, distinct: map[uint64]struct{}{}, counters: map[string]int64{}, perKey: map[string]int{}, start: time.Now()}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r.Seed)
	r.Thorough = os.Getenv("VERIF_TIER") == "thorough"
	r.OutDir = os.Getenv("VERIF_OUT")
	if r.OutDir == "" {
		r.OutDir = filepath.Join(os.TempDir(), "verif-out-"+id)
	}
	os.MkdirAll(r.OutDir, 0o755)
	return r
}

// Rng makes a generator that depends only on the seed and the given labels.
func (r *Run) Rng(labels ...any) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprint(f, r.ID, "/", r.Seed, "/", labels)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// Eval counts one evaluation; sig identifies it, an empty one is trivial.
func (r *Run) Eval(sig string) {
	r.evals.Add(1)
	if sig == "" {
		return
	}
	f := fnv.New64a()
	f.Write([]byte(sig))
	k := f.Sum64()
	r.mu.Lock()
	if len(r.distinct) < 5_000_000 {
		r.distinct[k] = struct{}{}
	}
	r.mu.Unlock()
}

func (r *Run) EvalBytes(b []byte, nontrivial bool) {
	if !nontrivial {
		r.Eval("")
		return
	}
	r.Eval(string(b))
}

// Count adds to a named counter reported in the evidence.
func (r *Run) Count(name string, n int64) {
	r.mu.Lock()
	r.counters[name] += n
	r.mu.Unlock()
}

func (r *Run) Counter(name string) int64 {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.counters[name]
}

// Sample keeps a few cases, written out.
func (r *Run) Sample(x any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

func (r *Run) Violated() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol) > 0
}

// Violate records a violation. key classifies it (a stable short name of what
// fails), replay is written out as JSON.
func (r *Run) Violate(key, msg string, replay any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.perKey[key]++
	if r.perKey[key] > 3 || len(r.viol) >= 30 {
		return
	}
	name := filepath.Join(r.OutDir, fmt.Sprintf("%s-%03d.json", r.ID, len(r.viol)+1))
	b, err := json.MarshalIndent(map[string]any{"property": r.ID, "seed": r.Seed, "thorough": r.Thorough, "key": key, "message": msg, "case": replay}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("%q: %s %v", r.ID, msg, replay))
	}
	os.WriteFile(name, b, 0o644)
	r.viol = append(r.viol, Violation{key, msg, name})
}

// Inconclusive notes that the check could not decide.
func (r *Run) Inconclusive(format string, a ...any) {
	r.mu.Lock()
	if len(r.incon) < 20 {
		r.incon = append(r.incon, fmt.Sprintf(format, a...))
	}
	r.mu.Unlock()
}

const repoPrefix = "github.com/ElectroUnion/egts-gate/"

// InRepo tells whether the innermost non-runtime frame region of a stack goes
// through the code under test.
func InRepo(stack string) bool { return strings.Contains(stack, repoPrefix) }

// Guard runs f; a panic below the code under test is a violation, any other
// one is an error of the check.
func (r *Run) Guard(key string, replay func() any, f func()) (ok bool) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if InRepo(st) {
				r.Violate("panic:"+key, fmt.Sprintf("panic: %v", p), map[string]any{"input": replay(), "stack": st})
			} else {
				r.Inconclusive("panic in the check (%s): %v\n%s", key, p, st)
			}
			ok = false
		}
	}()
	f()
	return true
}

// Parallel runs n shards on up to w goroutines.
func (r *Run) Parallel(name string, n, w int, f func(i int, rng *rand.Rand)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for g := 0; g < w; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				r.Guard(name, func() any { return map[string]any{"shard": i} }, func() { f(i, r.Rng(name, i)) })
			}
		}()
	}
	wg.Wait()
}

// item is the input a worker is busy with, for the hang watchdog.
type item struct {
	since time.Time
	kind  string
	input []byte
}

// Busy registers the input that is about to be processed; call the result when done.
func (r *Run) Busy(kind string, input []byte) func() {
	it := &item{time.Now(), kind, input}
	r.current.Store(it, true)
	return func() { r.current.Delete(it) }
}

// Stuck returns an input that has been processed for longer than d.
func (r *Run) Stuck(d time.Duration) (kind string, input []byte, ok bool) {
	r.current.Range(func(k, _ any) bool {
		it := k.(*item)
		if time.Since(it.since) > d {
			kind, input, ok = it.kind, it.input, true
			return false
		}
		return true
	})
	return
}

// Finish writes the result for check.py.
func (r *Run) Finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	keys := make([]string, 0)
	for k, n := range r.perKey {
		keys = append(keys, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(keys)
	res := map[string]any{
		"evaluations": r.evals.Load(), "distinct": len(r.distinct), "samples": r.samples, "counters": r.counters,
		"violations": r.viol, "violation_keys": keys, "inconclusive": r.incon, "rule": r.Rule, "assumptions": r.Assumptions,
	}
	b, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	tmp := filepath.Join(r.OutDir, "result.tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		panic(err)
	}
	os.Rename(tmp, filepath.Join(r.OutDir, "result.json"))
}
