package srv

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"sync"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"verif/harness/h"
)

// S09 - silent connections are closed after conn_ttl, active ones are not.
//
// All scenarios run at the same time on servers of their own TTL. Lower bounds
// are exact (the server cannot have started its clock before our last byte);
// upper bounds have a second of slack and count only if three runs in a row
// miss them while this process was not starved.
func S09(r *h.Run) {
	r.Rule = "one evaluation per connection watched to its end; distinct: scenario and TTL; all nontrivial"
	ttls := []time.Duration{900 * time.Millisecond, 1500 * time.Millisecond, 2500 * time.Millisecond}
	if r.Thorough {
		ttls = append(ttls, 400*time.Millisecond, 6*time.Second, 12*time.Second)
	}
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Guard("long", func() any { return i }, func() { longSession(r, i) })
		}()
	}
	for _, ttl := range patience {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Guard("patient", func() any { return ttl.String() }, func() { patient(r, ttl) })
		}()
	}
	for _, ttl := range ttls {
		slowFor := ttl * 17 / 10
		rec := &Recorder{Hook: func(s *Saved) error {
			if s.E.ClientID == slowID {
				time.Sleep(slowFor)
			}
			return nil
		}}
		s, err := Start(ttl, rec)
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		for rep := 0; rep < r.Scale(3, 12); rep++ {
			for _, sc := range scenarios {
				rng := r.Rng("ttl", ttl, sc.name, rep)
				wg.Add(1)
				go func() {
					defer wg.Done()
					r.Guard("ttl", func() any { return sc.name }, func() { watch(r, s.Addr, ttl, sc, rng, rep) })
				}()
				time.Sleep(3 * time.Millisecond)
			}
		}
	}
	wg.Wait()
	deafAndSilent(r)
}

// longSession stays active for much longer than any TTL, and if that is 0 it may also
// be silent.
func longSession(r *h.Run, i int) {
	ttl := []time.Duration{0, 700 * time.Millisecond, 2 * time.Second, 4 * time.Second}[i]
	s, err := Start(ttl, &Recorder{})
	if err != nil {
		r.Violate("server does not start", err.Error(), nil)
		return
	}
	defer s.Stop()
	length := time.Duration(r.Scale(66, 320)) * time.Second
	rng := r.Rng("long", i)
	for try := 0; ; try++ {
		over, from := Oversleep(), time.Now()
		c, err := Dial(s.Addr)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		defer c.Close()
		p := &player{c: c, g: NewGen(rng), rng: rng, ttl: ttl, before: from}
		n, start := 0, time.Now()
		for time.Since(start) < length && p.send(p.g.Sized(60+rng.Intn(100)).Wire) && p.reply() {
			n++
			pause := ttl * time.Duration(1+rng.Intn(7)) / 10
			if ttl == 0 {
				pause = time.Duration(rng.Intn(12)) * time.Second
			}
			time.Sleep(pause)
		}
		if p.err == nil {
			r.Count("sessions longer than a minute kept open", 1)
			r.Eval(fmt.Sprint("long", ttl))
			return
		}
		if errors.Is(p.err, errTimeout) {
			trouble(r, p.err, "no reply: long session", nil)
			return
		}
		if ttl == 0 || p.gap < ttl*9/10 && Oversleep()-over < int64(ttl/12) {
			r.Violate("active connection closed", fmt.Sprintf("an active session, TTL %s, ends after %s and %d packets (largest gap %s): %v", ttl, time.Since(start), n, p.gap, p.err), "long session")
			return
		}
		if try == 2 {
			r.Inconclusive("long session: this machine was too slow to keep to the schedule (largest gap %s, TTL %s)", p.gap, ttl)
			return
		}
	}
}

// patience are TTLs as they are configured in practice.
var patience = []time.Duration{20 * time.Second, 45 * time.Second, 70 * time.Second, 5 * time.Minute, 24 * time.Hour, 0}

// patient: peers that are silent for nearly the TTL or about a minute, at any point, are
// still served, and those that are silent for good are closed.
func patient(r *h.Run, ttl time.Duration) {
	s, err := Start(ttl, &Recorder{})
	if err != nil {
		r.Violate("server does not start", err.Error(), nil)
		return
	}
	defer s.Stop()
	pause := time.Duration(r.Scale(60, 260)) * time.Second
	if ttl > 0 && pause > ttl*93/100 {
		pause = ttl * 93 / 100
	}
	var wg sync.WaitGroup
	for k, place := range []int{0, 1, 9, 10, 11, 12, 50, -2, -1, 0} {
		rng := r.Rng("patient", ttl, k)
		wg.Add(1)
		go func() {
			defer wg.Done()
			over, from := Oversleep(), time.Now()
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			defer c.Close()
			p := &player{c: c, g: NewGen(rng), rng: rng, ttl: ttl, before: from}
			w := p.g.Sized(200).Wire
			if place < 0 {
				place += len(w)
			}
			if k > 0 { // not before the first packet
				p.send(p.g.Sized(60).Wire)
				p.reply()
			}
			if place > 0 {
				p.send(w[:place])
			}
			time.Sleep(pause)
			p.send(w[place:])
			p.reply()
			if p.err == nil {
				r.Count("peers served after a long silence", 1)
				r.Eval(fmt.Sprint("patient", ttl, k))
				return
			}
			if errors.Is(p.err, errTimeout) {
				trouble(r, p.err, "no reply: after a long silence", nil)
				return
			}
			if ttl > 0 && (p.gap > ttl*96/100 || Oversleep()-over > int64(ttl/24)) {
				r.Inconclusive("patient peers: this machine was too slow (silence of %s, TTL %s)", p.gap, ttl)
				return
			}
			r.Violate("active connection closed", fmt.Sprintf("silent for %s at byte %d of a packet, TTL %s: %v", p.gap, place, ttl, p.err), "patient")
		}()
	}
	if ttl > 0 && ttl < time.Minute || r.Thorough && ttl == 70*time.Second {
		for _, sc := range scenarios {
			if sc.active {
				continue
			}
			sc := sc
			rng := r.Rng("patient", ttl, sc.name)
			wg.Add(1)
			go func() {
				defer wg.Done()
				watch(r, s.Addr, ttl, sc, rng, 1)
			}()
		}
	}
	wg.Wait()
}

// deafAndSilent: peers that send until their replies cannot be delivered any more and
// then nothing. The receiver gets no data from them, so it has to close.
func deafAndSilent(r *h.Run) {
	lvl := logrus.GetLevel()
	logrus.SetLevel(logrus.ErrorLevel)
	defer logrus.SetLevel(lvl)
	ttls := []time.Duration{2 * time.Second, 3 * time.Second, 5 * time.Second}
	r.Parallel("deaf and silent", r.Scale(6, 30), 3, func(i int, rng *rand.Rand) {
		ttl := ttls[i%3]
		s, err := Start(ttl, &Recorder{})
		if err != nil {
			r.Violate("server does not start", err.Error(), nil)
			return
		}
		defer s.Stop()
		var late []string
		for try := 0; try < 4; try++ {
			over := Oversleep()
			took, open, err := deafUntilClosed(s.Addr, ttl, rng)
			switch {
			case err != nil:
				trouble(r, err, "no connection", nil)
				return
			case open && Starved(5*time.Second):
				r.Inconclusive("deaf peer: connection still open, but this machine did not get to run for seconds")
				return
			case open:
				r.Violate("silent connection not closed", fmt.Sprintf("a peer that does not read its replies, TTL %s: still open %s after the last data", ttl, took.Round(time.Millisecond)), "deaf and silent")
				return
			}
			if took <= ttl+2*time.Second {
				r.Count("deaf and silent peers watched to the close", 1)
				r.Eval(fmt.Sprint("deaf", i, ttl))
				return
			}
			if Oversleep()-over > int64(time.Second) {
				continue
			}
			if late = append(late, took.String()); len(late) >= 3 {
				r.Violate("silent connection closed late", fmt.Sprintf("a peer that does not read its replies, TTL %s: closed after %v", ttl, late), "deaf and silent")
				return
			}
		}
		r.Inconclusive("deaf peers: this machine was too slow (%v)", late)
	})
}

// deafUntilClosed tells how long after the last data the connection was closed.
func deafUntilClosed(addr string, ttl time.Duration, rng *rand.Rand) (took time.Duration, open bool, err error) {
	d := net.Dialer{Timeout: Patience, Control: func(_, _ string, rc syscall.RawConn) error {
		return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 2048) })
	}}
	x, err := d.Dial("tcp", addr)
	if err != nil {
		return 0, false, err
	}
	defer x.Close()
	w := NewGen(rng).Empties(3000).Wire
	last := time.Now()
	for {
		// in small pieces, so that the time of the last data is known
		for b := w; len(b) > 0; {
			n := min(len(b), 2048)
			x.SetWriteDeadline(time.Now().Add(ttl + Patience))
			_, err := x.Write(b[:n])
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				return time.Since(last), true, nil
			}
			if err != nil {
				return time.Since(last), false, nil
			}
			b, last = b[n:], time.Now()
		}
	}
}

const slowID = 4242

type scenario struct {
	name   string
	active bool // sends at intervals below the TTL for several TTLs first
	play   func(p *player)
}

// player drives one connection.
type player struct {
	c      *Client
	g      *Gen
	rng    *rand.Rand
	ttl    time.Duration
	before time.Time // just before the last byte was written
	after  time.Time // just after it
	gap    time.Duration
	err    error
	pend   []byte
}

func (p *player) send(b []byte) bool {
	if p.err != nil {
		return false
	}
	t := time.Now()
	if t.Sub(p.before) > p.gap {
		p.gap = t.Sub(p.before)
	}
	p.before = t
	p.err = p.c.Write(b)
	p.after = time.Now()
	if g := p.after.Sub(t); g > p.gap {
		p.gap = g
	}
	return p.err == nil
}

// drip writes b in pieces over about d.
// uneven pauses shortly and for most of the TTL by turns.
func (p *player) uneven(i int) {
	tenths := 8
	if i%2 == 0 {
		tenths = 1 + p.rng.Intn(3)
	}
	time.Sleep(p.ttl * time.Duration(tenths) / 10)
}

func (p *player) drip(b []byte, pieces int, pause time.Duration) bool {
	for i := 0; i < pieces; i++ {
		from, to := len(b)*i/pieces, len(b)*(i+1)/pieces
		if from == to {
			continue
		}
		if !p.send(b[from:to]) {
			return false
		}
		time.Sleep(pause)
	}
	return true
}

func (p *player) reply() bool {
	if p.err != nil {
		return false
	}
	_, _, p.err = p.c.Next(Patience)
	return p.err == nil
}

var scenarios = []scenario{
	{"silent from the start", false, func(p *player) {}},
	{"silent after one packet", false, func(p *player) {
		p.send(p.g.Sized(100).Wire)
		p.reply()
	}},
	{"silent after several packets", false, func(p *player) {
		for i := 0; i < 5; i++ {
			p.send(p.g.Sized(60 + p.rng.Intn(300)).Wire)
			p.reply()
			time.Sleep(p.ttl / 5)
		}
	}},
	{"silent after a damaged packet", false, func(p *player) {
		p.send(p.g.Damaged().Wire)
		p.reply()
	}},
	{"silent after a PT_RESPONSE", false, func(p *player) { p.send(p.g.Response().Wire) }},
	{"silent after identification", false, func(p *player) {
		p.send(p.g.Identify(0).Wire)
		p.reply()
		p.reply()
	}},
	{"silent after one byte", false, func(p *player) { p.send([]byte{1}) }},
	{"silent after nine bytes", false, func(p *player) { p.send(p.g.Sized(100).Wire[:9]) }},
	{"silent after ten bytes", false, func(p *player) { p.send(p.g.Sized(100).Wire[:10]) }},
	{"silent within the body", false, func(p *player) { w := p.g.Sized(400).Wire; p.send(w[:11+p.rng.Intn(400)]) }},
	{"silent before the last byte", false, func(p *player) { w := p.g.Sized(4000).Wire; p.send(w[:len(w)-1]) }},
	{"silent within the second packet", false, func(p *player) {
		w := p.g.Sized(200).Wire
		p.send(append(append([]byte(nil), p.g.Sized(60).Wire...), w[:5+p.rng.Intn(150)]...))
		p.reply()
	}},
	{"packets at intervals", true, func(p *player) {
		for i := 0; i < 7; i++ {
			if !p.send(p.g.Sized(80).Wire) || !p.reply() {
				return
			}
			time.Sleep(p.ttl * 6 / 10)
		}
	}},
	{"a header byte by byte", true, func(p *player) {
		w := p.g.Sized(80).Wire
		if p.drip(w[:12], 12, p.ttl*4/10) && p.send(w[12:]) {
			p.reply()
		}
	}},
	{"a body in pieces", true, func(p *player) {
		w := p.g.Sized(1200).Wire
		p.send(w[:10])
		if p.drip(w[10:], 8, p.ttl*5/10) {
			p.reply()
		}
	}},
	{"a packet in even pieces", true, func(p *player) {
		if p.drip(p.g.Sized(300).Wire, 10, p.ttl*4/10) {
			p.reply()
		}
	}},
	{"a large packet in pieces", true, func(p *player) {
		if p.drip(p.g.Sized(65000).Wire, 9, p.ttl*5/10) {
			p.reply()
		}
	}},
	{"packets at uneven intervals", true, func(p *player) {
		for i := 0; i < 9; i++ {
			if !p.send(p.g.Sized(80).Wire) || !p.reply() {
				return
			}
			p.uneven(i)
		}
	}},
	{"a packet in uneven pieces", true, func(p *player) {
		w := p.g.Sized(900).Wire
		for i := 0; i < 8; i++ {
			n := 1 + p.rng.Intn(100)
			if !p.send(w[:n]) {
				return
			}
			w = w[n:]
			p.uneven(i)
		}
		if p.send(w) {
			p.reply()
		}
	}},
	{"PT_RESPONSE packets at intervals", true, func(p *player) {
		for i := 0; i < 7; i++ {
			if !p.send(p.g.Response().Wire) {
				return
			}
			time.Sleep(p.ttl * 6 / 10)
		}
		if p.send(p.g.Sized(60).Wire) {
			p.reply()
		}
	}},
	{"damaged packets at intervals", true, func(p *player) {
		for i := 0; i < 6; i++ {
			if !p.send(p.g.Damaged().Wire) || !p.reply() {
				return
			}
			time.Sleep(p.ttl * 6 / 10)
		}
	}},
	{"active while a record takes long to store", true, func(p *player) {
		g := *p.g
		g.AnyOID, g.OIDBase = false, slowID
		it := g.Sized(70)
		for it.Exports[0].ClientID != slowID {
			it = g.Sized(70)
		}
		if !p.send(it.Wire) {
			return
		}
		n := 1
		for i := 0; i < 5; i++ {
			time.Sleep(p.ttl * 5 / 10)
			if !p.send(p.g.Sized(60).Wire) {
				return
			}
			n++
		}
		for ; n > 0; n-- {
			if !p.reply() {
				return
			}
		}
	}},
	{"long pauses just below the TTL", true, func(p *player) {
		for i := 0; i < 4; i++ {
			if !p.send(p.g.Sized(80).Wire) || !p.reply() {
				return
			}
			time.Sleep(p.ttl * 8 / 10)
		}
	}},
}

// watch plays a scenario and then waits in silence for the end of the connection.
func watch(r *h.Run, addr string, ttl time.Duration, sc scenario, rng *rand.Rand, rep int) {
	var late, lateUs []string
	for try := 0; try < 4; try++ {
		maxOversleepReset := Oversleep()
		dialed := time.Now() // the server may see the connection before we know of it
		c, err := Dial(addr)
		if err != nil {
			trouble(r, err, "no connection", nil)
			return
		}
		p := &player{c: c, g: NewGen(rng), rng: rng, ttl: ttl, before: dialed, after: time.Now()}
		sc.play(p)
		ended := time.Now()
		closed := p.err != nil && !errors.Is(p.err, errTimeout)
		var ne net.Error
		if errors.As(p.err, &ne) && ne.Timeout() {
			closed = false
		}
		if p.err != nil && !closed {
			c.Close()
			trouble(r, p.err, "no reply: "+sc.name, map[string]any{"scenario": sc.name})
			return
		}
		if !closed {
			var err error
			for {
				_, _, err = c.Next(ttl + Patience)
				if err != nil {
					break
				}
			}
			ended = time.Now()
			if errors.Is(err, errTimeout) {
				c.Close()
				if Starved(5 * time.Second) {
					r.Inconclusive("%s: connection still open, but this machine did not get to run for seconds", sc.name)
				} else {
					r.Violate("silent connection not closed", fmt.Sprintf("%s, TTL %s: still open after %s", sc.name, ttl, time.Since(p.after).Round(time.Millisecond)), sc.name)
				}
				return
			}
		}
		c.Close()
		// the server's clock restarts when it reads; it cannot have read our last
		// byte before we wrote it
		since := ended.Sub(p.before)
		if closed && p.gap < ttl*95/100 {
			// the write itself failed: measure from the write before it
			since = p.gap
		}
		tooEarly := since < ttl-5*time.Millisecond
		starved := Oversleep()-maxOversleepReset > int64(ttl/12) || p.gap > ttl*9/10
		if tooEarly {
			// we were late ourselves?
			if starved {
				lateUs = append(lateUs, p.gap.String())
				continue
			}
			r.Violate("active connection closed", fmt.Sprintf("%s, TTL %s: closed %s after the last data (largest gap %s, session %s)", sc.name, ttl, since, p.gap, ended.Sub(dialed)), sc.name)
			return
		}
		if closed {
			// closed during the scenario, at a gap we did not mean to leave
			lateUs = append(lateUs, p.gap.String())
			if !starved {
				r.Violate("active connection closed", fmt.Sprintf("%s, TTL %s: largest gap %s, session %s: %v", sc.name, ttl, p.gap, ended.Sub(dialed), p.err), sc.name)
				return
			}
			continue
		}
		slack := time.Second
		if ended.Sub(p.after) > ttl+slack {
			late = append(late, ended.Sub(p.after).String())
			if len(late) < 3 {
				continue
			}
			if starved {
				r.Inconclusive("%s: closed late, but this machine was starved", sc.name)
				return
			}
			r.Violate("silent connection closed late", fmt.Sprintf("%s, TTL %s: closed after %v", sc.name, ttl, late), sc.name)
			return
		}
		kind := "silences watched to the close"
		if sc.active {
			kind = "active sessions kept open, then closed"
		}
		r.Count(kind, 1)
		r.Eval(fmt.Sprint(sc.name, ttl, rep))
		if rep == 0 && rng.Intn(8) == 0 {
			r.Sample(map[string]any{"scenario": sc.name, "ttl": ttl.String(), "closed_after_silence_of": ended.Sub(p.before).String(), "largest_gap_before": p.gap.String()})
		}
		return
	}
	r.Inconclusive("%s: this machine was too slow to keep to the schedule (%v)", sc.name, lateUs)
}
