package srv

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/h"
	"verif/harness/lib"
	"verif/harness/ref"
)

// S01 - no byte stream from a peer can crash the receiver or stall other peers.
func S01(r *h.Run) {
	r.Rule = "one evaluation per hostile connection; distinct: bytes sent (first 2000); nontrivial if anything was sent. Well-behaved peers exchange packets all the time and count separately."
	proc, addr, err := Receiver(r, true, "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 8\nlog_level: \"ERROR\"\nstorage: {}\n")
	if err != nil {
		r.Violate("receiver does not start", err.Error(), nil)
		return
	}
	defer proc.Kill()
	time.Sleep(300 * time.Millisecond)
	died := func() bool {
		if !proc.Exited() {
			return false
		}
		out := proc.Output()
		key := "receiver died"
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				key += ": " + l
				break
			}
		}
		r.Violate(key, fmt.Sprint(proc.Err), map[string]any{"output": tail(out), "recent": recentHostile()})
		return true
	}
	const witnesses = 6
	base := proc.Fds()

	stop := make(chan struct{})
	var wg sync.WaitGroup
	var beats [witnesses]atomic.Int64
	var inFlight [witnesses]atomic.Int64 // unix nano of the open request
	for k := 0; k < witnesses; k++ {
		wg.Add(1)
		rng := r.Rng("witness", k)
		go func(k int) {
			defer wg.Done()
			g := NewGen(rng)
			var c *Client
			for n := 0; ; n++ {
				select {
				case <-stop:
					if c != nil {
						c.Close()
					}
					return
				default:
				}
				inFlight[k].Store(time.Now().UnixNano())
				if c == nil || n%50 == 49 && k%2 == 0 { // new connections must be accepted, too
					if c != nil {
						c.Close()
					}
					var err error
					if c, err = Dial(addr); err != nil {
						if !died() {
							trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "no new connection next to hostile peers", nil)
						}
						return
					}
				}
				items := []*Item{g.Data(), g.Sized(60)}
				got, err := Exchange(c, Segment(rng, items, n%3), 0, func(x []Reply) bool { return responses(x) >= 2 })
				if err != nil {
					if !died() {
						trouble(r, err, "well-behaved peer stalled by hostile ones", caseOf(items, 0, got, map[string]any{"recent_hostile": recentHostile()}))
					}
					return
				}
				if at, key, msg := judgeAcks(items, got, true, false); at >= 0 {
					r.Violate("well-behaved peer: "+key, msg, caseOf(items, at, got, nil))
					return
				}
				inFlight[k].Store(0)
				beats[k].Add(1)
				time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			}
		}(k)
	}
	n := r.Scale(10000, 200000)
	r.Parallel("hostile", n, 16, func(i int, rng *rand.Rand) {
		if r.Violated() || proc.Exited() {
			return
		}
		hostileConn(r, addr, i, rng)
	})
	// many silent connections at once
	if !r.Violated() && !proc.Exited() {
		var cs []*Client
		for k, most := 0, descriptors()/4; k < min(r.Scale(1500, 4000), most); k++ {
			if c, err := Dial(addr); err == nil {
				if k%3 == 0 {
					c.Write([]byte{1, 0, 0, 11, 0, 255, 255}[:1+k%7])
				}
				cs = append(cs, c)
			}
		}
		peak := 0
		for t := time.Now(); time.Since(t) < 5*time.Second && peak < len(cs); time.Sleep(20 * time.Millisecond) {
			peak = max(peak, proc.Fds())
		}
		r.Count("descriptors at the peak", int64(peak))
		newPeers(r, addr, cs, died)
		for k, c := range cs {
			if k%2 == 0 {
				c.Abort()
			} else {
				c.Close()
			}
		}
		r.Count("silent connections", int64(len(cs)))
	}
	close(stop)
	wg.Wait()
	if died() || r.Violated() {
		return
	}
	var total int64
	for k := range beats {
		total += beats[k].Load()
	}
	r.Count("exchanges of well-behaved peers", total)
	// what the hostile ones used must be given back
	fds := 0
	for t := time.Now(); ; time.Sleep(50 * time.Millisecond) {
		if fds = proc.Fds(); fds <= base+2 {
			break
		}
		if time.Since(t) > Patience {
			r.Violate("connections not released", fmt.Sprintf("%d descriptors open, %d before, %s after all peers have left (TTL 8 s)", fds, base, Patience), nil)
			break
		}
	}
	// and a new peer must be served
	g := NewGen(r.Rng("last"))
	if c, err := Dial(addr); err != nil {
		trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "no new connection after hostile peers", nil)
	} else {
		c.Write(g.Sized(100).Wire)
		if p, _, err := c.Next(Patience); err != nil || p.Result != 0 {
			trouble(r, fmt.Errorf("reply %v, %v", p, err), "no service after hostile peers", nil)
		}
		c.Close()
	}
	r.Sample(map[string]any{"descriptors_before": base, "descriptors_after": fds, "rss_after": proc.RSS(), "witness_exchanges": total})
	if died() {
		return
	}
	outOfDescriptors(r)
	leaks(r)
}

// descriptors is how many of them a process may have.
func descriptors() int {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l) != nil {
		return 1024
	}
	return int(min(l.Cur, 1<<20))
}

// newPeers connects next to many silent peers, which stay connected by sending a
// byte of an endless packet now and then.
func newPeers(r *h.Run, addr string, silent []*Client, died func() bool) {
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for n := 0; ; n++ {
			for k, c := range silent {
				b := []byte{1, 0, 0, 11, 0, 255, 255, 0, 0, 1, 0}
				if k%3 == 0 {
					b = b[1+k%7:]
				}
				if n < len(b) {
					b = b[n : n+1]
				} else {
					b = b[:1]
				}
				c.c.SetWriteDeadline(time.Now().Add(time.Second))
				c.c.Write(b)
			}
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
		}
	}()
	// and some that do not read their replies
	var dwg sync.WaitGroup
	for k := 0; k < 3; k++ {
		dwg.Add(1)
		rng := r.Rng("deaf", k)
		go func() {
			defer dwg.Done()
			c, _, _, blocked := deaf(addr, rng, false)
			if blocked {
				r.Count("peers deaf until the reply could not be written", 1)
			}
			if c != nil {
				go func() { <-stop; c.Abort() }()
			}
		}()
	}
	dwg.Wait()
	g := NewGen(r.Rng("newcomer"))
	for k := 0; k < 20; k++ {
		it := g.Sized(100)
		c, err := Dial(addr)
		if err == nil {
			c.Write(it.Wire)
			var p *ref.Packet
			if p, _, err = c.Next(Patience); err == nil && p.Result != 0 {
				err = fmt.Errorf("result %d", p.Result)
			}
			c.Close()
		}
		if err != nil {
			if !died() {
				trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "new peer not served next to silent ones", map[string]any{"silent": len(silent), "packet": it.describe()})
			}
			break
		}
		r.Count("new peers served next to silent ones", 1)
	}
	close(stop)
	wg.Wait()
}

var (
	recentMu sync.Mutex
	recent   []string
)

func noteHostile(b []byte) {
	recentMu.Lock()
	defer recentMu.Unlock()
	recent = append(recent, fmt.Sprintf("%x", clip(b)))
	if len(recent) > 60 {
		recent = recent[1:]
	}
}

func recentHostile() []string {
	recentMu.Lock()
	defer recentMu.Unlock()
	return append([]string(nil), recent...)
}

// hostileConn plays one hostile connection.
func hostileConn(r *h.Run, addr string, i int, rng *rand.Rand) {
	c, err := Dial(addr)
	if err != nil {
		return // the witnesses judge whether connections are accepted
	}
	var b []byte
	kinds := ""
	g := NewGen(rng)
	for k := 1 + rng.Intn(4); k > 0; k-- {
		if rng.Intn(4) == 0 { // a valid packet in front, so that more state is reached
			b = append(b, g.Data().Wire...)
		}
		x, kind := lib.Hostile(rng)
		b = append(b, x...)
		kinds = kind
	}
	noteHostile(b)
	c.c.SetWriteDeadline(time.Now().Add(3 * time.Second))
	if rng.Intn(3) == 0 && len(b) > 1 {
		n := 1 + rng.Intn(len(b)-1)
		c.c.Write(b[:n])
		time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
		c.c.Write(b[n:])
	} else {
		c.c.Write(b)
	}
	switch rng.Intn(6) {
	case 0:
		c.Abort()
	case 1:
		c.Close()
	case 2: // half-close and read what comes
		if t, ok := c.c.(interface{ CloseWrite() error }); ok {
			t.CloseWrite()
		}
		c.c.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
		c.c.Read(make([]byte, 4096))
		c.Close()
	case 3: // flood without reading
		c.c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
		n := 20
		if len(b) > 5000 {
			n = 3
		}
		for k := 0; k < n; k++ {
			if _, err := c.c.Write(b); err != nil {
				break
			}
		}
		c.Abort()
	default:
		c.c.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(8)) * time.Millisecond))
		c.c.Read(make([]byte, 4096))
		c.Close()
	}
	r.EvalBytes(clip(b), true)
	r.Count("hostile connections", 1)
	r.Count("hostile: "+kinds, 1)
	r.Count("hostile bytes", int64(len(b)))
	if i < 3 {
		r.Sample(map[string]any{"kind": kinds, "bytes": fmt.Sprintf("%x", clip(b)), "total": len(b)})
	}
}

// leaks runs hostile peers against a server in this process and watches its goroutines.
func leaks(r *h.Run) {
	s, err := Start(300*time.Millisecond, &Recorder{})
	if err != nil {
		r.Violate("server does not start", err.Error(), nil)
		return
	}
	defer s.Stop()
	time.Sleep(700 * time.Millisecond)
	runtime.GC()
	before := runtime.NumGoroutine()
	var most atomic.Int64
	r.Parallel("leaks", r.Scale(600, 10000), 24, func(i int, rng *rand.Rand) {
		hostileConn(r, s.Addr, i+1000, rng)
		if n := int64(runtime.NumGoroutine()); n > most.Load() {
			most.Store(n)
		}
	})
	peak := most.Load()
	after := 0
	for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		if after = runtime.NumGoroutine(); after <= before+2 {
			break
		}
		if time.Since(t) > Patience {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			r.Violate("goroutines not released", fmt.Sprintf("%d before, %d %s after the last hostile peer left", before, after, Patience), string(buf[:min(len(buf), 20000)]))
			return
		}
	}
	r.Count("goroutines before", int64(before))
	r.Count("goroutines with hostile peers", peak)
	r.Count("goroutines after", int64(after))
}
