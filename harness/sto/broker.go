// Package sto checks the storages, the configuration and the programs. The
// connectors talk to brokers written here from the published wire protocols,
// which record what they were sent and fail where they are told to.
package sto

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"
)

// Msg is a message a broker was given.
type Msg struct {
	Dest, Body string
	Via        string    // who delivered it: user, database, ...
	Terms      string    // what limits or delays it at the broker
	Confirmed  bool      // set before the confirmation is written
	At         time.Time // when that was
}

// confirm is to be called with the lock of the broker.
func (m *Msg) confirm() {
	if !m.Confirmed {
		m.Confirmed, m.At = true, time.Now()
	}
}

// Plan tells how the broker behaves when it is about to answer at a stage of
// the conversation, n counting the occurrences of that stage:
// "" normally, "slow" after a pause, "error" with an error, "fatal" with an
// error and the end of the connection, "close" and "reset" by ending the
// connection, "half" with half of the answer and the end, "after" with the
// answer and the end, "silent" not at all.
type Plan func(stage string, n int) string

type Broker struct {
	Kind       string
	Addr       string
	User, Pass string // what it lets in; empty: anybody
	DB         string
	Plan       Plan
	Max        int  // largest message, where the protocol tells
	Forget     bool // messages are counted only

	ln    net.Listener
	mu    sync.Mutex
	msgs  []*Msg
	bad   []string
	count map[string]int
	held  map[string]int
	taken int
	conns map[net.Conn]bool
	wg    sync.WaitGroup
	down  bool
	nconn int
}

type session struct {
	b   *Broker
	c   net.Conn
	r   *bufio.Reader
	via string
	own map[string]int // what it holds for this client
}

type hangup struct{}

var kinds = map[string]func(*session){
	"redis": redisSession, "nsq": nsqSession, "postgresql": pgSession,
	"tarantool_queue": tarantoolSession, "nats": natsSession, "rabbitmq": amqpSession,
}

// Kinds in a fixed order.
var Kinds = []string{"redis", "nsq", "postgresql", "tarantool_queue", "nats", "rabbitmq"}

var brokers atomic.Int64

// Start listens on one of many addresses, so that it is found only by those
// who look where they are told to.
func (b *Broker) Start() error {
	n := brokers.Add(1)
	return b.listen(fmt.Sprintf("127.%d.%d.%d:0", 20+n%7, n%251, 1+n%83))
}

func (b *Broker) listen(addr string) error {
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	b.mu.Lock()
	b.ln, b.Addr, b.down = ln, ln.Addr().String(), false
	if b.count == nil {
		b.count = map[string]int{}
	}
	b.conns, b.held = map[net.Conn]bool{}, map[string]int{}
	b.mu.Unlock()
	b.wg.Add(1)
	go func() {
		defer b.wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			b.mu.Lock()
			if b.down {
				b.mu.Unlock()
				c.Close()
				continue
			}
			b.conns[c] = true
			b.nconn++
			b.mu.Unlock()
			b.wg.Add(1)
			go b.serve(c)
		}
	}()
	return nil
}

// Down stops the broker, Up starts it again where it was.
func (b *Broker) Down() {
	b.mu.Lock()
	b.down = true
	ln := b.ln
	for c := range b.conns {
		c.Close()
	}
	b.mu.Unlock()
	ln.Close()
	b.wg.Wait()
}

func (b *Broker) Up() (err error) {
	for i := 0; i < 200; i++ {
		if err = b.listen(b.Addr); err == nil {
			return nil
		}
		time.Sleep(20 * time.Millisecond)
	}
	return err
}

func (b *Broker) serve(c net.Conn) {
	defer b.wg.Done()
	s := &session{b: b, c: c, r: bufio.NewReaderSize(c, 64<<10)}
	defer func() {
		c.Close()
		b.mu.Lock()
		delete(b.conns, c)
		for k, n := range s.own {
			b.held[k] -= n
		}
		b.mu.Unlock()
		if p := recover(); p != nil {
			if _, ok := p.(hangup); !ok {
				b.protocol("%v", p)
			}
		}
	}()
	s.act("connect")
	kinds[b.Kind](s)
}

func (b *Broker) protocol(f string, a ...any) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.bad) < 10 {
		b.bad = append(b.bad, fmt.Sprintf(f, a...))
	}
}

// Bad lists what did not follow the protocol.
func (b *Broker) Bad() []string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]string(nil), b.bad...)
}

// Msgs are copies of the messages so far.
func (b *Broker) Msgs() []Msg {
	b.mu.Lock()
	defer b.mu.Unlock()
	var l []Msg
	for _, m := range b.msgs {
		l = append(l, *m)
	}
	return l
}

func (b *Broker) Len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.msgs)
}

// Seen tells how often a stage was reached.
func (b *Broker) Seen(stage string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.count[stage]
}

// hold notes that the client made the broker keep something, or released it.
func (s *session) hold(what string, n int) {
	s.b.mu.Lock()
	defer s.b.mu.Unlock()
	if s.own == nil {
		s.own = map[string]int{}
	}
	s.own[what] += n
	s.b.held[what] += n
}

// Held lists what clients have made the broker keep: connections and more.
func (b *Broker) Held() map[string]int {
	b.mu.Lock()
	defer b.mu.Unlock()
	m := map[string]int{"connections": len(b.conns)}
	for k, n := range b.held {
		m[k] = n
	}
	return m
}

// Taken counts all messages.
func (b *Broker) Taken() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.taken
}

// got records a message.
func (s *session) got(dest, body string) *Msg {
	m := &Msg{Dest: dest, Body: body, Via: s.via}
	s.b.mu.Lock()
	defer s.b.mu.Unlock()
	s.b.taken++
	if !s.b.Forget {
		s.b.msgs = append(s.b.msgs, m)
	}
	return m
}

// act asks the plan what to do at a stage and does what ends the connection.
func (s *session) act(stage string) string {
	s.b.mu.Lock()
	n := s.b.count[stage]
	s.b.count[stage]++
	s.b.mu.Unlock()
	a := ""
	if s.b.Plan != nil {
		a = s.b.Plan(stage, n)
	}
	switch a {
	case "close":
		panic(hangup{})
	case "reset":
		s.c.(*net.TCPConn).SetLinger(0)
		panic(hangup{})
	case "silent":
		io.Copy(io.Discard, s.r)
		panic(hangup{})
	case "slow":
		time.Sleep(30 * time.Millisecond)
	}
	return a
}

// say answers as act decided. A positive answer in full confirms m.
func (s *session) say(a string, ok, fail []byte, m *Msg) bool {
	switch a {
	case "error":
		s.write(fail)
		return false
	case "fatal":
		s.write(fail)
		panic(hangup{})
	case "half":
		s.write(ok[:len(ok)/2])
		panic(hangup{})
	}
	if m != nil {
		s.b.mu.Lock()
		m.confirm()
		s.b.mu.Unlock()
	}
	s.write(ok)
	if a == "after" {
		panic(hangup{})
	}
	return true
}

func (s *session) write(b []byte) {
	if len(b) == 0 {
		return
	}
	s.c.SetWriteDeadline(time.Now().Add(60 * time.Second))
	if _, err := s.c.Write(b); err != nil {
		panic(hangup{})
	}
}

func (s *session) full(n int) []byte {
	if n < 0 || n > 64<<20 {
		s.fail("a piece of %d bytes", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(s.r, b); err != nil {
		panic(hangup{})
	}
	return b
}

func (s *session) line() string {
	l, err := s.r.ReadString('\n')
	if err != nil {
		panic(hangup{})
	}
	l = l[:len(l)-1]
	if n := len(l); n > 0 && l[n-1] == '\r' {
		l = l[:n-1]
	}
	return l
}

func (s *session) fail(f string, a ...any) {
	panic(fmt.Sprintf(f, a...))
}

func u32(b []byte) int { return int(binary.BigEndian.Uint32(b)) }
func be32(n int) []byte {
	return binary.BigEndian.AppendUint32(nil, uint32(n))
}
func be16(n int) []byte {
	return binary.BigEndian.AppendUint16(nil, uint16(n))
}
