package sto

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"net"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nats"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/nsq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/postgresql"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/rabbitmq"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/redis"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage/store/tarantool_queue"

	"verif/harness/h"
	"verif/harness/srv"
)

type message = interface{ ToBytes() ([]byte, error) }

// Confirms lists the connectors whose protocol confirms a message, Contacts
// those that talk to the broker in Init.
var Confirms = map[string]bool{"redis": true, "nsq": true, "postgresql": true, "tarantool_queue": true}
var Contacts = map[string]bool{"postgresql": true, "tarantool_queue": true, "nats": true, "rabbitmq": true}

func newStore(kind string) storage.Store {
	switch kind {
	case "redis":
		return &redis.Connector{}
	case "nsq":
		return &nsq.Connector{}
	case "postgresql":
		return &postgresql.Connector{}
	case "tarantool_queue":
		return &tarantool_queue.Connector{}
	case "nats":
		return &nats.Connector{}
	case "rabbitmq":
		return &rabbitmq.Connector{}
	}
	panic(kind)
}

// setup is a broker with the configuration that leads to it.
type setup struct {
	b    *Broker
	cfg  map[string]string
	dest string
	via  string
}

func word(r *rand.Rand, chars string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	return string(b)
}

const alnum = "abcdefghijklmnopqrstuvwxyz0123456789"

// secret is a user name or a password.
func secret(r *rand.Rand, plain bool) string {
	chars := alnum + strings.ToUpper(alnum)
	if !plain && r.Intn(2) == 0 {
		chars += `!#$%&'()*+,-./:;<=>?@[\]^_{|}~" `
	}
	return word(r, chars, 1+r.Intn(20))
}

// newSetup starts a broker that is reached with a random configuration.
func newSetup(kind string, r *rand.Rand, plan Plan) (*setup, error) {
	b := &Broker{Kind: kind, Plan: plan}
	if err := b.Start(); err != nil {
		return nil, err
	}
	host, port, _ := net.SplitHostPort(b.Addr)
	s := &setup{b: b}
	auth := r.Intn(3) > 0
	switch kind {
	case "redis":
		s.dest = secret(r, false)
		s.cfg = map[string]string{"server": b.Addr, "queue": s.dest}
		s.via = "db 0"
		if auth {
			b.Pass = secret(r, false)
			s.cfg["password"] = b.Pass
		} else if r.Intn(2) == 0 {
			s.cfg["password"] = ""
		}
		if k := r.Intn(24); k < 16 {
			s.cfg["db"] = strconv.Itoa(k)
			s.via = "db " + s.cfg["db"]
		}
	case "nsq":
		s.dest = word(r, alnum+"ABC._-", 1+r.Intn(64))
		s.cfg = map[string]string{"server": b.Addr, "topic": s.dest}
	case "postgresql":
		b.User, b.DB = secret(r, false), secret(r, false)
		if auth {
			b.Pass = secret(r, false)
		}
		s.dest = "t" + word(r, alnum+"_", r.Intn(30))
		if r.Intn(3) == 0 {
			s.dest = "s" + word(r, alnum+"_", 4) + "." + s.dest
		}
		s.cfg = map[string]string{"host": host, "port": port, "user": b.User, "password": b.Pass, "database": b.DB, "table": s.dest, "sslmode": "disable"}
		s.via = b.User + "@" + b.DB
	case "tarantool_queue":
		if auth {
			b.User, b.Pass = secret(r, false), secret(r, false)
		}
		s.dest = word(r, alnum+"_ABCXYZ", 1+r.Intn(20))
		s.cfg = map[string]string{"host": host, "port": port, "user": b.User, "password": b.Pass, "max_recons": strconv.Itoa(1 + r.Intn(5)),
			"timeout": "20", "reconnect": strconv.Itoa(r.Intn(3)), "queue": s.dest}
		s.via = b.User
	case "nats":
		s.dest = word(r, alnum+"ABCXYZ", 5) + "." + word(r, alnum+"_-ABCXYZ", 1+r.Intn(20))
		l := []string{"nats://" + b.Addr}
		if r.Intn(2) == 0 { // a cluster of which one is alive
			l = append(l, "nats://"+closedAddr(), "nats://"+closedAddr())
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		s.cfg = map[string]string{"servers": strings.Join(l, ", "), "topic": s.dest, "plugin": "nats.so"}
		if auth {
			b.User, b.Pass = secret(r, false), secret(r, false)
			s.cfg["user"], s.cfg["password"] = b.User, b.Pass
		}
		s.via = b.User
	case "rabbitmq":
		b.User, b.Pass = secret(r, false), secret(r, false)
		ex, key := word(r, alnum+".-_ABCXYZ", r.Intn(30)), ""
		s.cfg = map[string]string{"host": host, "port": port, "user": b.User, "password": b.Pass, "exchange": ex}
		if r.Intn(2) == 0 {
			key = word(r, alnum+".*#ABCXYZ", r.Intn(60))
			if r.Intn(2) == 0 { // keys may hold any characters
				key = word(r, alnum+" ./:!$&'()-_=+@%;,<>\t", 1+r.Intn(200))
			}
			if r.Intn(6) == 0 {
				key = " " + key + "ключ "
			}
			s.cfg["key"] = key
		}
		s.dest = ex + "|" + key
		s.via = b.User + "@/"
	}
	return s, nil
}

func (s *setup) String() string {
	return fmt.Sprintf("%s %q", s.b.Kind, s.cfg)
}

// closedAddr is an address nobody listens on.
func closedAddr() string {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	return ln.Addr().String()
}

// record makes a record the server could export.
func record(r *rand.Rand, id uint32) *storage.NavRecord {
	f := func() float64 {
		switch r.Intn(4) {
		case 0:
			return float64(r.Intn(180))
		case 1:
			return -r.Float64() * 180
		case 2:
			return math.Round(r.Float64()*1e6) / 1e6
		}
		return r.Float64() * math.Pow(10, float64(r.Intn(20)-10))
	}
	texts := []string{"", "0", "plain", "с кириллицей", `"quoted" \back`, "<&>\u2028\u0001\t\n", "'; DROP TABLE x; --", "\r\n+OK\r\n", "\x00nul", "\xff\xfe", "$1", "%s%d"}
	n := &storage.NavRecord{ServerID: texts[r.Intn(len(texts))], IMEI: texts[r.Intn(len(texts))], ClientID: r.Uint32(), ReceivedDt: "2021-12-16T09:12:00+03:00",
		PacketID: id, NavigationTimestamp: int64(r.Uint32())}
	k := 1 + r.Intn(4)
	if r.Intn(25) == 0 {
		k = 1000 + r.Intn(3000) // more than any buffer on the way
	}
	for ; k > 0; k-- {
		n.LocStates = append(n.LocStates, storage.LocState{Latitude: f(), Longitude: f(), Speed: uint16(r.Uint32()), NavigationDt: "2021-12-16T09:12:00Z"})
	}
	n.LocStatesCount = int32(len(n.LocStates))
	for k := r.Intn(3); k > 0; k-- {
		n.AnSensors = append(n.AnSensors, storage.AnSensor{SensorNumber: uint8(r.Uint32()), Value: r.Uint32()})
	}
	for k := r.Intn(3); k > 0; k-- {
		n.LiquidSensors = append(n.LiquidSensors, storage.LiquidSensor{SensorNumber: uint8(r.Uint32()), ModuleNumber: uint16(r.Uint32()), ErrorFlag: "0", ValueUnit: "01", ValueMm: r.Uint32(), ValueL: f()})
	}
	return n
}

// plain is what the standard library makes of a record.
func plain(n *storage.NavRecord) string {
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	return string(b)
}

var errBytes = errors.New("cannot be serialised")

type broken struct{ b []byte }

func (m broken) ToBytes() ([]byte, error) { return m.b, errBytes }

// outcome of a call into the code under test.
type outcome struct {
	err   error
	panic string // with its stack
	late  bool   // did not come back in time
}

func (o outcome) String() string {
	switch {
	case o.late:
		return "does not return"
	case o.panic != "":
		return "panics: " + o.panic
	case o.err != nil:
		return "error: " + o.err.Error()
	}
	return "success"
}

// call runs f with a limit.
func call(d time.Duration, f func() error) outcome {
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		defer func() {
			if p := recover(); p != nil {
				o.panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
			}
			done <- o
		}()
		o.err = f()
	}()
	select {
	case o := <-done:
		return o
	case <-time.After(d):
		return outcome{late: true}
	}
}

// judge reports what no call may do.
func judge(r *h.Run, what string, o outcome, replay any) bool {
	switch {
	case o.panic != "":
		r.Violate("panic in "+what, o.panic, replay)
	case o.late:
		if srv.Starved(5 * time.Second) {
			r.Inconclusive("%s did not return while the machine was starved", what)
		} else {
			r.Violate(what+" does not return", "no result within the limit", replay)
		}
	default:
		return true
	}
	return false
}

// eventually waits for a condition.
func eventually(d time.Duration, f func() bool) bool {
	for t := time.Now(); time.Since(t) < d; time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
