package sto

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"

	"verif/harness/h"
)

// probe is an instrumented storage.
type probe struct {
	mu    sync.Mutex
	fails func(m message) error
	pause time.Duration
	got   map[message]int
	bytes map[message]string
}

func (p *probe) Save(m message) error {
	b, err := m.ToBytes()
	p.mu.Lock()
	p.got[m]++
	p.bytes[m] = string(b)
	p.mu.Unlock()
	if p.pause > 0 {
		time.Sleep(p.pause)
	}
	if err != nil {
		return err
	}
	if p.fails != nil {
		return p.fails(m)
	}
	return nil
}

func (p *probe) Init(map[string]string) error { return nil }
func (p *probe) Close() error                 { return nil }

// failure is an error storages may return: none of them is less of a failure than others.
func failure(n int) error {
	list := []error{errors.New("storage fails"), storage.InvalidStorage, storage.UnknownStorage, io.EOF, io.ErrUnexpectedEOF, context.Canceled, context.DeadlineExceeded,
		net.ErrClosed, os.ErrDeadlineExceeded, syscall.EPIPE, syscall.ECONNREFUSED, sql.ErrNoRows, sql.ErrConnDone, driver.ErrBadConn, errors.New(""), errors.New("EOF"), errors.New("timeout")}
	e := list[n%len(list)]
	if n/len(list)%2 == 1 {
		e = fmt.Errorf("storage: %w", e)
	}
	return e
}

type note struct{ text string }

func (n *note) ToBytes() ([]byte, error) { return []byte(n.text), nil }

// T01 - the repository offers every record to every storage exactly once.
func T01(r *h.Run) {
	r.Rule = "one evaluation per Save or LoadStorages call judged; distinct: number of storages, pattern of failures, number of goroutines, kind of configuration; nontrivial with at least one storage"

	// all patterns of failures
	max := r.Scale(9, 13)
	for n := 0; n <= max; n++ {
		repo := storage.NewRepository()
		var ps []*probe
		pattern := 0
		for i := 0; i < n; i++ {
			i := i
			p := &probe{got: map[message]int{}, bytes: map[message]string{}, fails: func(message) error {
				if pattern>>i&1 == 1 {
					return failure(i + pattern)
				}
				return nil
			}}
			ps = append(ps, p)
			repo.AddStore(p)
		}
		for pattern = 0; pattern < 1<<n; pattern++ {
			m := &note{fmt.Sprint(n, "/", pattern)}
			rep := map[string]any{"storages": n, "failing (bit mask)": pattern}
			o := call(time.Minute, func() error { return repo.Save(m) })
			if !judge(r, "Repository.Save", o, rep) {
				return
			}
			sig := ""
			if n > 0 {
				sig = fmt.Sprint("pattern ", n, " ", pattern)
			}
			r.Eval(sig)
			r.Count("patterns of failures", 1)
			if (o.err != nil) != (pattern != 0) {
				r.Violate("result of Save", fmt.Sprintf("Save with %d storages, failing mask %b: %v", n, pattern, o), rep)
			}
			for i, p := range ps {
				if p.got[m] != 1 || p.bytes[m] != m.text {
					r.Violate("offers", fmt.Sprintf("with %d storages and failing mask %b storage %d was offered the record %d times as %q", n, pattern, i, p.got[m], p.bytes[m]), rep)
				}
			}
		}
		if r.Violated() {
			return
		}
	}

	// many goroutines
	r.Parallel("concurrent", r.Scale(60, 1500), 6, func(k int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		n, g, each := 1+rng.Intn(6), 2+rng.Intn(14), 20
		repo := storage.NewRepository()
		var ps []*probe
		mod := make([]int, n)
		for i := 0; i < n; i++ {
			i := i
			mod[i] = rng.Intn(5) // fails for every mod-th message, 0: never
			p := &probe{got: map[message]int{}, bytes: map[message]string{}, pause: time.Duration(rng.Intn(2)*rng.Intn(300)) * time.Microsecond}
			p.fails = func(m message) error {
				var a, b int
				fmt.Sscan(m.(*note).text, &a, &b)
				if mod[i] > 0 && (a+b)%mod[i] == 0 {
					return failure(a + b)
				}
				return nil
			}
			ps = append(ps, p)
			repo.AddStore(p)
		}
		rep := map[string]any{"storages": n, "goroutines": g, "fails every": mod}
		var wg sync.WaitGroup
		notes := make([][]*note, g)
		outs := make([][]outcome, g)
		for a := 0; a < g; a++ {
			notes[a], outs[a] = make([]*note, each), make([]outcome, each)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for b := range notes[a] {
					notes[a][b] = &note{fmt.Sprint(a, " ", b)}
					outs[a][b] = call(time.Minute, func() error { return repo.Save(notes[a][b]) })
				}
			}()
		}
		wg.Wait()
		for a := range notes {
			for b, m := range notes[a] {
				if !judge(r, "Repository.Save", outs[a][b], rep) {
					return
				}
				want := false
				for i, p := range ps {
					want = want || mod[i] > 0 && (a+b)%mod[i] == 0
					if p.got[m] != 1 || p.bytes[m] != m.text {
						r.Violate("offers", fmt.Sprintf("storage %d of %d was offered a record %d times as %q", i, n, p.got[m], p.bytes[m]), rep)
					}
				}
				if (outs[a][b].err != nil) != want {
					r.Violate("result of Save", fmt.Sprintf("%v; some storage fails: %v", outs[a][b], want), rep)
				}
				r.Eval(fmt.Sprint("concurrent ", n, g, mod))
				r.Count("concurrent saves", 1)
			}
		}
	})

	// loading storages
	type cfg = map[string]map[string]string
	refuse := func(name string, c cfg, times int) {
		for i := 0; i < times; i++ { // a map is walked in a random order
			o := call(time.Minute, func() error { return storage.NewRepository().LoadStorages(c) })
			rep := map[string]any{"storages": c}
			if !judge(r, "LoadStorages", o, rep) {
				return
			}
			if o.err == nil {
				r.Violate("load "+name, "LoadStorages reports success", rep)
				return
			}
			r.Eval("load " + name + fmt.Sprint(c))
			r.Count("configurations refused", 1)
		}
	}
	refuse("nothing", nil, 1)
	refuse("nothing", cfg{}, 1)
	for _, n := range []string{"", "Redis", "redis ", "REDIS", "mysql", "rabbit", "tarantool", "postgres", "log", "default", "nsq2", "null"} {
		refuse("unknown", cfg{n: {}}, 2)
		refuse("unknown", cfg{n: nil}, 1)
	}
	rng := r.Rng("load")
	for i := 0; i < r.Scale(6, 40); i++ {
		rd, err := newSetup("redis", rng, nil)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		ns, err := newSetup("nsq", rng, nil)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		refuse("one unknown", cfg{"redis": rd.cfg, "nsq": ns.cfg, "unknown": {}}, 6)
		refuse("one without parameters", cfg{"redis": rd.cfg, "nsq": nil}, 6)
		refuse("one without parameters", cfg{"redis": nil}, 1)
		refuse("one incomplete", cfg{"nsq": ns.cfg, "redis": {"server": rd.b.Addr}}, 6)
		refuse("one unreachable", cfg{"nsq": ns.cfg, "redis": rd.cfg, "nats": {"servers": "nats://" + closedAddr(), "topic": "x"}}, 6)
		rd.b.Down()
		ns.b.Down()
	}

	// every storage of a configuration is given every record
	r.Parallel("loaded", r.Scale(70, 600), 6, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		mask := i%63 + 1
		c := cfg{}
		var ss []*setup
		for k, kind := range Kinds {
			if mask>>k&1 == 0 {
				continue
			}
			s, err := newSetup(kind, rng, nil)
			if err != nil {
				r.Inconclusive("%v", err)
				return
			}
			defer s.b.Down()
			c[kind] = s.cfg
			ss = append(ss, s)
		}
		rep := map[string]any{"storages": c}
		repo := storage.NewRepository()
		if o := call(time.Minute, func() error { return repo.LoadStorages(c) }); !judge(r, "LoadStorages", o, rep) || o.err != nil {
			if o.err != nil {
				r.Violate("load", "a good configuration is refused: "+o.err.Error(), rep)
			}
			return
		}
		var want []string
		for k := 0; k < 4; k++ {
			rec := record(rng, uint32(k))
			b, _ := rec.ToBytes()
			want = append(want, string(b))
			if o := call(time.Minute, func() error { return repo.Save(rec) }); !judge(r, "Repository.Save", o, rep) || o.err != nil {
				if o.err != nil {
					r.Violate("save", "saving to working storages fails: "+o.err.Error(), rep)
				}
				return
			}
		}
		for _, s := range ss {
			eventually(30*time.Second, func() bool { return s.b.Len() >= len(want) })
			got := s.b.Msgs()
			ok := len(got) == len(want)
			for j := range got {
				ok = ok && got[j].Body == want[j]
			}
			if !ok {
				r.Violate("offers", fmt.Sprintf("%s of a configuration with %d storages received %d records, not the %d saved", s.b.Kind, len(ss), len(got), len(want)), rep)
				return
			}
		}
		r.Eval(fmt.Sprint("loaded ", mask))
		r.Count("configurations loaded", 1)
		if i < 2 {
			r.Sample(rep)
		}
	})
}
