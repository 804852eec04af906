// Package srv holds the checks of the receiver's server: it runs the real
// server on loopback, drives it with real connections and judges what comes
// back and what is handed to storage.
package srv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"

	"verif/harness/ref"
)

// ---- time: is this process being starved? ----------------------------------

var maxOversleep atomic.Int64   // ns
var totalOversleep atomic.Int64 // ns, sum of what exceeds 10 ms

func init() {
	go func() {
		for {
			t := time.Now()
			time.Sleep(20 * time.Millisecond)
			d := int64(time.Since(t) - 20*time.Millisecond)
			if d > maxOversleep.Load() {
				maxOversleep.Store(d)
			}
			if d > int64(10*time.Millisecond) {
				totalOversleep.Add(d)
			}
		}
	}()
}

// Starved tells whether this process has been kept from running for more than lim since start-up
// (a bound on any later interval).
func Starved(lim time.Duration) bool { return maxOversleep.Load() > int64(lim) }

// Patience is how long a reply may take. On loopback it takes well below a millisecond.
const Patience = 30 * time.Second

// ---- recording storage ------------------------------------------------------

type msg = interface{ ToBytes() ([]byte, error) }

// Exp is one exported record as its consumers see it.
type Exp struct {
	ServerID   string   `json:"server_id"`
	IMEI       string   `json:"IMEI"`
	ClientID   uint32   `json:"client_id"`
	ReceivedDt string   `json:"received_dt"`
	PacketID   uint32   `json:"packet_id"`
	Nav        int64    `json:"navigation_unix_time"`
	An         []ExpAn  `json:"an_sensors"`
	Liquid     []ExpLiq `json:"liquid_sensors"`
	Loc        []ExpLoc `json:"loc_states"`
	Count      int      `json:"loc_states_count"`
}

type ExpAn struct {
	N uint8  `json:"sensor_number"`
	V uint32 `json:"value"`
}

type ExpLiq struct {
	N    uint8   `json:"sensor_number"`
	M    uint16  `json:"module_number"`
	Err  string  `json:"error_flag"`
	Unit string  `json:"value_unit"`
	Mm   uint32  `json:"value_mm"`
	L    float64 `json:"value_l"`
}

type ExpLoc struct {
	Lat   float64 `json:"lat"`
	Lng   float64 `json:"lng"`
	Speed uint16  `json:"speed"`
	Dt    string  `json:"navigation_dt"`
}

var recKeys = []string{"server_id", "IMEI", "client_id", "received_dt", "packet_id", "navigation_unix_time", "an_sensors", "liquid_sensors", "loc_states", "loc_states_count"}

// Saved is one record handed to storage.
type Saved struct {
	Raw      []byte
	E        Exp
	At       time.Time
	KeyError string // documented keys missing or unknown ones present
}

// ParseSaved reads the JSON form of a record.
func ParseSaved(raw []byte) (Saved, error) { return parseSaved(raw) }

func parseSaved(raw []byte) (Saved, error) {
	s := Saved{Raw: append([]byte(nil), raw...), At: time.Now()}
	var keys map[string]json.RawMessage
	if err := json.Unmarshal(raw, &keys); err != nil {
		return s, err
	}
	for _, k := range recKeys {
		if _, ok := keys[k]; !ok {
			s.KeyError += " missing " + k
		}
		delete(keys, k)
	}
	for k := range keys {
		s.KeyError += " unknown " + k
	}
	d := json.NewDecoder(bytes.NewReader(raw))
	d.DisallowUnknownFields()
	if err := d.Decode(&s.E); err != nil {
		s.KeyError += " " + err.Error()
	}
	return s, nil
}

// Recorder is a storage that writes down what it is given.
type Recorder struct {
	mu     sync.Mutex
	saved  []Saved
	bad    []string
	begun  atomic.Int64
	ended  atomic.Int64
	Hook   func(s *Saved) error // may delay, may fail; called without locks, before recording
	OnSave func(s *Saved)       // called with the lock held, after recording
	Every  atomic.Int64         // every so many-th Save fails, none if 0
}

func (c *Recorder) Save(m interface{ ToBytes() ([]byte, error) }) error {
	c.begun.Add(1)
	defer c.ended.Add(1)
	raw, err := m.ToBytes()
	if err != nil {
		c.mu.Lock()
		c.bad = append(c.bad, "ToBytes: "+err.Error())
		c.mu.Unlock()
		return err
	}
	s, err := parseSaved(raw)
	if err != nil {
		c.mu.Lock()
		c.bad = append(c.bad, fmt.Sprintf("not JSON: %v: %.200s", err, raw))
		c.mu.Unlock()
		return err
	}
	if c.Hook != nil {
		err = c.Hook(&s)
	}
	if n := c.Every.Load(); n > 0 && c.begun.Load()%n == 0 {
		err = errors.New("storage out of order")
	}
	// what was handed over must not change while the storage works on it
	again, err2 := m.ToBytes()
	c.mu.Lock()
	defer c.mu.Unlock()
	if err2 != nil || !bytes.Equal(raw, again) {
		c.bad = append(c.bad, fmt.Sprintf("record changed during Save: %.300s / %.300s", raw, again))
	}
	if err != nil {
		return err
	}
	c.saved = append(c.saved, s)
	if c.OnSave != nil {
		c.OnSave(&s)
	}
	return nil
}

// Take returns and forgets what was saved so far.
func (c *Recorder) Take() []Saved {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.saved
	c.saved = nil
	return s
}

func (c *Recorder) Bad() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.bad...)
}

// ---- server -------------------------------------------------------------------

type Server struct {
	Addr string
	s    *server.Server
	done chan struct{}
}

var fatals atomic.Int64

func init() {
	// log.Fatal in the code under test must not end the check
	logrus.StandardLogger().ExitFunc = func(int) { fatals.Add(1); runtime.Goexit() }
}

var hostNo atomic.Int64

// FreeAddr finds a loopback address nobody listens on.
func FreeAddr() string {
	// a program being started at the same time must not inherit the listener
	syscall.ForkLock.RLock()
	defer syscall.ForkLock.RUnlock()
	for {
		n := hostNo.Add(1)
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 10+n>>16&63, n>>8&255, 1+n&127))
		if err != nil {
			continue
		}
		a := l.Addr().String()
		l.Close()
		return a
	}
}

// Start runs a server with the given storages.
func Start(ttl time.Duration, savers ...saver) (*Server, error) {
	repo := storage.NewRepository()
	for _, s := range savers {
		repo.AddStore(s)
	}
	return StartAt(FreeAddr(), ttl, repo)
}

func StartAt(addr string, ttl time.Duration, repo *storage.Repository) (*Server, error) {
	x := server.New(addr, ttl, repo)
	s := &Server{Addr: addr, s: &x, done: make(chan struct{})}
	go func() {
		defer close(s.done)
		s.s.Run()
	}()
	for t := time.Now(); ; {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			return s, nil
		}
		select {
		case <-s.done:
			return nil, errors.New("Run returns at once")
		default:
		}
		if time.Since(t) > Patience {
			return nil, fmt.Errorf("server does not listen on %s: %v", addr, err)
		}
		time.Sleep(time.Millisecond)
	}
}

func (s *Server) Stop() { s.s.Stop() }

// ---- client --------------------------------------------------------------------

type Client struct {
	c   net.Conn
	buf []byte
	mu  sync.Mutex
	err error
	// In counts bytes received
	In int
}

// End tells the receiver that nothing more will be sent.
func (c *Client) End() {
	if t, ok := c.c.(*net.TCPConn); ok {
		t.CloseWrite()
	}
}

func Dial(addr string) (*Client, error) {
	for t := time.Now(); ; {
		c, err := net.DialTimeout("tcp", addr, Patience)
		if err == nil {
			return &Client{c: c}, nil
		}
		if time.Since(t) > Patience {
			return nil, err
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (c *Client) Close() { c.c.Close() }

// Abort closes with a reset.
func (c *Client) Abort() {
	if t, ok := c.c.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.c.Close()
}

var (
	errTimeout = errors.New("no reply in time")
	errClosed  = errors.New("connection closed by the server")
)

type badReply struct {
	raw   []byte
	err   error
	frame bool // the frame as such is complete and has been consumed
}

func (b badReply) Error() string { return fmt.Sprintf("invalid reply: %v: %x", b.err, b.raw) }

// Write sends b, giving up after Patience.
func (c *Client) Write(b []byte) error {
	c.c.SetWriteDeadline(time.Now().Add(Patience))
	_, err := c.c.Write(b)
	return err
}

// Next reads one packet, judged by the strict parser.
func (c *Client) Next(wait time.Duration) (*ref.Packet, []byte, error) {
	deadline := time.Now().Add(wait)
	for {
		if len(c.buf) >= 10 {
			n, err := ref.FrameLen(c.buf)
			if err != nil {
				return nil, nil, badReply{c.buf, err, false}
			}
			if len(c.buf) >= n {
				raw := c.buf[:n:n]
				c.buf = c.buf[n:]
				p, err := ref.Parse(raw)
				if err != nil {
					return nil, raw, badReply{raw, err, true}
				}
				return p, raw, nil
			}
		}
		b := make([]byte, 65536)
		c.c.SetReadDeadline(deadline)
		n, err := c.c.Read(b)
		c.In += n
		c.buf = append(c.buf, b[:n]...)
		if n > 0 {
			continue
		}
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() {
			return nil, nil, errTimeout
		}
		if err != nil {
			if len(c.buf) > 0 {
				return nil, c.buf, badReply{c.buf, errors.New("connection closed in the middle of a packet"), false}
			}
			if err == io.EOF {
				return nil, nil, errClosed
			}
			return nil, nil, fmt.Errorf("%w: %v", errClosed, err)
		}
	}
}

type saver = storage.Saver

// Oversleep is a running measure of how late this process gets to run.
func Oversleep() int64 { return totalOversleep.Load() }
