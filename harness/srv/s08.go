package srv

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"verif/harness/h"
)

// S08 - connections are isolated from each other and free of data races.
func S08(r *h.Run) {
	r.Rule = "one evaluation per packet sent on one of many simultaneous connections; distinct: wire bytes; nontrivial if it is exported. Orders in which the connections' records reach the storage are counted separately."
	orders := map[string]bool{}
	var omu sync.Mutex
	rounds := r.Scale(14, 150)
	for round := 0; round < rounds && !r.Violated(); round++ {
		n := []int{8, 40, 120, 64}[round%4]
		if r.Thorough && round%10 == 0 {
			n = 600
		}
		rec := &Recorder{}
		var order []byte
		var owners sync.Map // time of a position -> connection
		delays := round % 3
		rec.Hook = func(s *Saved) error {
			if delays > 0 && len(s.E.Loc) > 0 {
				time.Sleep(time.Duration(len(s.Raw)*7919%(1200*delays)) * time.Microsecond)
			}
			return nil
		}
		rec.OnSave = func(s *Saved) {
			if len(s.E.Loc) > 0 && len(order) < 400 {
				if c, ok := owners.Load(s.E.Loc[0].Dt); ok {
					order = append(order, byte(c.(int)))
				}
			}
		}
		s, err := Start(60*time.Second, rec)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		// peers that get in the way
		stop := make(chan struct{})
		var pests sync.WaitGroup
		for k := 0; k < 12; k++ {
			if k%6 == 2 && (round%4 != 1 || k > 6) {
				continue // costly
			}
			pests.Add(1)
			prng := r.Rng("pest", round, k)
			go func(k int) {
				defer pests.Done()
				pest(s.Addr, k, prng, stop)
				r.Count("disturbing peers", 1)
			}(k)
		}
		type res struct {
			items []*Item
			got   []Reply
			err   error
			how   int
		}
		rs := make([]res, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := 0; c < n; c++ {
			crng := r.Rng("conn", round, c)
			g := NewGen(crng)
			g.ntm = uint32(c) << 22
			g.AnyOID, g.OIDBase, g.NeedOID = false, uint32(1000+c*16), true
			if c%4 == 0 {
				g.PID = 100 // the same packet ids on many connections
			}
			items := traffic(g, c, 8+crng.Intn(30), c%3 == 0)
			items = append(items, g.Sized(60))
			for _, e := range expected(items) {
				for _, l := range e.Loc {
					owners.Store(l.Dt, c)
				}
			}
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-start
				how := crng.Intn(4)
				got, err := drive(r, s.Addr, crng, items, how)
				rs[c] = res{items, got, err, how}
			}(c)
		}
		close(start)
		wg.Wait()
		close(stop)
		pests.Wait()
		s.Stop()
		by := map[int][]Saved{}
		for _, sv := range rec.Take() {
			if len(sv.E.Loc) == 0 {
				r.Violate("record without positions", string(sv.Raw), nil)
				return
			}
			o, ok := owners.Load(sv.E.Loc[0].Dt)
			if !ok {
				if sv.E.ClientID-pestID < 4 {
					continue
				}
				r.Violate("record nobody sent", string(sv.Raw), nil)
				return
			}
			by[o.(int)] = append(by[o.(int)], sv)
		}
		for _, b := range rec.Bad() {
			r.Violate("storage handed a bad record", b, map[string]any{"round": round})
		}
		for c := range rs {
			x := &rs[c]
			at, key, msg := judgeAcks(x.items, x.got, true, true)
			rep := caseOf(x.items, max(at, 0), x.got, map[string]any{"round": round, "connection": c, "of": n, "how": hows[x.how]})
			if at >= 0 && !(key == "no reply" && x.err != nil) {
				r.Violate("replies among many connections: "+key, fmt.Sprintf("connection %d of %d: %s", c, n, msg), rep)
				return
			}
			if x.err != nil {
				trouble(r, x.err, "session among many ends early: "+msg, rep)
				return
			}
			want := expected(x.items)
			sv := by[c]
			for k := range want {
				d := ""
				if k >= len(sv) {
					d = fmt.Sprintf("%d records, want %d", len(sv), len(want))
				} else {
					d = DiffExp(&sv[k].E, &want[k])
				}
				if d != "" {
					r.Violate("exports among many connections", fmt.Sprintf("connection %d of %d, record %d: %s", c, n, k, d), rep)
					return
				}
			}
			if len(sv) > len(want) {
				r.Violate("exports among many connections", fmt.Sprintf("connection %d of %d: %d records, want %d: %s", c, n, len(sv), len(want), sv[len(want)].Raw), rep)
				return
			}
			for _, it := range x.items {
				r.EvalBytes(it.Wire, len(it.Exports) > 0)
			}
			r.Count("connections judged", 1)
			r.Count("records matched to their connection", int64(len(want)))
		}
		r.Count("most connections at once", max(0, int64(n)-r.Counter("most connections at once")))
		omu.Lock()
		orders[string(order)] = true
		switches := 0
		for k := 1; k < len(order); k++ {
			if order[k] != order[k-1] {
				switches++
			}
		}
		omu.Unlock()
		r.Count("switches between connections at the storage", int64(switches))
		if round < 3 {
			r.Sample(map[string]any{"connections": n, "order_of_saves_by_connection": fmt.Sprint(order[:min(60, len(order))])})
		}
	}
	r.Count("distinct save orders", int64(len(orders)))
	stuckStorage(r)
	deafPeers(r)
}

// deaf connects (to a receiver of this process, if here), sends packets without ever reading a reply, and returns once the
// receiver no longer takes any: its handler is then blocked in writing a reply.
// It has then been sent that many bytes of copies of the item.
func deaf(addr string, rng *rand.Rand, here bool) (c *Client, it *Item, sent int, blocked bool) {
	d := net.Dialer{Timeout: Patience, Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
	}}
	x, err := d.Dial("tcp", addr)
	if err != nil {
		return nil, nil, 0, false
	}
	c = &Client{c: x}
	it = NewGen(rng).Empties(3000)
	w := it.Wire
	for t := time.Now(); time.Since(t) < Patience; {
		x.SetWriteDeadline(time.Now().Add(time.Second))
		n, err := x.Write(w)
		sent += n
		if err == nil {
			continue
		}
		if ne, ok := err.(net.Error); !ok || !ne.Timeout() {
			break
		}
		if n == 0 && (!here || writing() > 0) { // nothing taken for a second, and not because the handler is slow
			return c, it, sent, true
		}
		w = append(w[n:len(w):len(w)], w[:n]...)
	}
	return c, it, sent, false
}

// writing counts the handlers of this process that wait for a peer to take a reply.
func writing() (n int) {
	b := make([]byte, 4<<20)
	for _, g := range strings.Split(string(b[:runtime.Stack(b, true)]), "\n\n") {
		if strings.Contains(g, "waitWrite") && strings.Contains(g, "egts-gate/cli/receiver/server.") {
			n++
		}
	}
	return n
}

// deafPeers blocks handlers in writing replies and requires all others to go on.
func deafPeers(r *h.Run) {
	// a reply is only large if its packet has many records, each of which is logged
	lvl := logrus.GetLevel()
	logrus.SetLevel(logrus.ErrorLevel)
	defer logrus.SetLevel(lvl)
	r.Parallel("deaf peers", r.Scale(4, 40), 4, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		s, err := Start([]time.Duration{5 * time.Minute, 0}[i%2], &Recorder{})
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		old, err := Dial(s.Addr) // one that was there before
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer old.Close()
		for k := 0; k < 1+i%2; k++ {
			c, it, sent, blocked := deaf(s.Addr, rng, true)
			if c != nil {
				defer c.Abort()
			}
			if blocked {
				r.Count("peers deaf until the reply could not be written", 1)
				since := time.Now()
				defer func() {
					time.Sleep(time.Until(since.Add(time.Duration(r.Scale(8, 35)) * time.Second)))
					hears(r, c, it, sent, rand.New(rand.NewSource(int64(i))))
				}()
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			krng := rand.New(rand.NewSource(rng.Int63()))
			go func(k int) {
				defer wg.Done()
				g := NewGen(krng)
				items := traffic(g, k, 10, true)
				items = append(items, g.Sized(60))
				var got []Reply
				var err error
				if k == 0 {
					got, err = Exchange(old, Segment(krng, items, 0), 0, func(x []Reply) bool { return responses(x) >= countResponses(items) })
				} else {
					got, err = drive(r, s.Addr, krng, items, k%4)
				}
				at, key, msg := judgeAcks(items, got, true, true)
				if at >= 0 && err == nil {
					r.Violate("replies next to a peer that does not read: "+key, msg, caseOf(items, at, got, nil))
				}
				if err != nil {
					trouble(r, err, "a peer that does not read its replies stops another", caseOf(items, max(at, 0), got, nil))
				}
				for range items {
					r.Eval(fmt.Sprint("deaf", i, k))
				}
			}(k)
		}
		wg.Wait()
	})
}

// hears: a peer that did not read for a while starts to, and finds all of its replies.
func hears(r *h.Run, c *Client, it *Item, sent int, rng *rand.Rand) {
	var items []*Item
	for n := 0; n < sent; n += len(it.Wire) {
		items = append(items, it)
	}
	w := append([]byte(nil), it.Wire[len(it.Wire)-(len(items)*len(it.Wire)-sent):]...)
	g := NewGen(rng)
	g.PID = it.PID + 1
	last := g.Sized(60)
	items = append(items, last)
	got, err := Exchange(c, []Chunk{{B: append(w, last.Wire...)}}, 0, func(x []Reply) bool { return responses(x) >= len(items) })
	at, key, msg := judgeAcks(items, got, true, true)
	if at >= 0 && err == nil {
		r.Violate("replies to a peer that did not read for a while: "+key, msg, caseOf(items[at:], 0, nil, nil))
	}
	if err != nil {
		trouble(r, err, "a peer that did not read for a while does not get its replies", map[string]any{"packets sent": len(items), "replies": responses(got), "records of a packet": len(it.P.Records)})
	}
	r.Count("replies to peers that had been deaf", int64(len(got)))
	r.Eval(fmt.Sprint("hears ", it.PID, sent))
}

func countResponses(items []*Item) int {
	n := 0
	for _, it := range items {
		if it.Kind != "response" {
			n++
		}
	}
	return n
}

const pestID = 0xDEAD0001

// pest is a peer that misbehaves until stop.
func pest(addr string, k int, rng *rand.Rand, stop chan struct{}) {
	c, err := Dial(addr)
	if err != nil {
		return
	}
	g := NewGen(rng)
	g.AnyOID, g.OIDBase, g.NeedOID = false, pestID, true
	g.ntm = 3<<30 + uint32(k)<<22
	one := func() *Item { return g.Sized(60) }
	switch k % 6 {
	case 0: // silent
		<-stop
	case 1: // half a packet
		w := one().Wire
		c.Write(w[:len(w)/2])
		<-stop
	case 2: // sends a lot and never reads
		w := g.Empties(3000).Wire
		if t, ok := c.c.(*net.TCPConn); ok {
			t.SetReadBuffer(4096)
		}
		c.c.SetWriteDeadline(time.Now().Add(4 * time.Second))
		for i := 0; i < 3000; i++ {
			select {
			case <-stop:
				c.Abort()
				return
			default:
			}
			if _, err := c.c.Write(w); err != nil {
				break
			}
		}
		<-stop
	case 3: // connects and aborts
		for {
			w := one().Wire
			c.Write(w[:1+rng.Intn(len(w)-1)])
			c.Abort()
			select {
			case <-stop:
				return
			case <-time.After(3 * time.Millisecond):
			}
			if c, err = Dial(addr); err != nil {
				return
			}
		}
	case 4: // noise
		for {
			b := make([]byte, 10+rng.Intn(500))
			rng.Read(b)
			c.Write(b)
			select {
			case <-stop:
				c.Close()
				return
			case <-time.After(2 * time.Millisecond):
			}
			c.Close()
			if c, err = Dial(addr); err != nil {
				return
			}
		}
	case 5: // one byte now and then
		w := one().Wire
		for i := 0; i < len(w)-1; i++ {
			c.Write(w[i : i+1])
			select {
			case <-stop:
				c.Close()
				return
			case <-time.After(50 * time.Millisecond):
			}
		}
	}
	c.Close()
}

// stuckStorage keeps the Save of one connection waiting and requires all
// others to finish meanwhile.
func stuckStorage(r *h.Run) {
	r.Parallel("stuck storage", r.Scale(12, 100), 4, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		const victim = 77
		gate := make(chan struct{})
		var open sync.Once
		release := func() { open.Do(func() { close(gate) }) }
		defer release()
		var waiting atomic.Int64
		rec := &Recorder{Hook: func(s *Saved) error {
			if s.E.ClientID == victim {
				waiting.Add(1)
				<-gate
			}
			return nil
		}}
		s, err := Start(60*time.Second, rec)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		// several connections whose records the storage keeps
		nv := 1 + i%3
		var vs []*Client
		var its []*Item
		for k := 0; k < nv; k++ {
			g := NewGen(rng)
			g.AnyOID, g.OIDBase, g.NeedOID = false, victim, true
			var it *Item
			for it == nil || it.Exports[0].ClientID != victim {
				it = g.Sized(60)
			}
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			defer c.Close()
			c.Write(it.Wire)
			vs, its = append(vs, c), append(its, it)
		}
		for t := time.Now(); waiting.Load() < int64(nv); time.Sleep(time.Millisecond) {
			if time.Since(t) > Patience {
				trouble(r, errTimeout, "a slow storage call keeps another connection's record from the storage", map[string]any{"waiting": waiting.Load(), "of": nv})
				return
			}
		}
		var wg sync.WaitGroup
		for k := 0; k < 10; k++ {
			wg.Add(1)
			krng := rand.New(rand.NewSource(rng.Int63()))
			go func(k int) {
				defer wg.Done()
				g := NewGen(krng)
				g.AnyOID, g.OIDBase, g.NeedOID = false, 1000, true
				items := traffic(g, k, 15, true)
				items = append(items, g.Sized(60))
				got, err := drive(r, s.Addr, krng, items, k%4)
				at, key, msg := judgeAcks(items, got, true, true)
				if at >= 0 && err == nil {
					r.Violate("replies next to a stuck storage call: "+key, msg, caseOf(items, at, got, nil))
				}
				if err != nil {
					trouble(r, err, "a stuck storage call of one connection stops another", caseOf(items, max(at, 0), got, nil))
				}
				for range items {
					r.Eval(fmt.Sprint("stuck", i, k))
				}
			}(k)
		}
		wg.Wait()
		release()
		for k, c := range vs {
			p, _, err := c.Next(Patience)
			if err != nil || p.RPID != its[k].PID || p.Result != 0 {
				trouble(r, fmt.Errorf("reply %v, %v", p, err), "no acknowledgement after the storage came back", its[k].describe())
				return
			}
		}
		r.Count("stuck storage calls survived", 1)
	})
}
