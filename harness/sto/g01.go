package sto

import (
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
	"verif/harness/srv"
)

const epoch = 1262304000 // 2010-01-01, seconds

// request is what packet-gen is asked to send.
type request struct {
	pid, oid int64
	t        time.Time
	lat, lon float64
	liquid   int64 // -1: not asked for
	args     []string
}

func genRequest(r *rand.Rand) *request {
	q := &request{pid: 1 + int64(ref.Bound(r, 16)), oid: 1 + int64(ref.Bound(r, 32)), liquid: -1}
	if q.pid > 65535 {
		q.pid = 65535
	}
	if q.oid > math.MaxUint32 {
		q.oid = math.MaxUint32
	}
	sec := int64(ref.Bound(r, 32))
	q.t = time.Unix(epoch+sec, 0)
	switch r.Intn(3) {
	case 0:
		q.t = q.t.UTC()
	default:
		q.t = q.t.In(time.FixedZone("", (r.Intn(28*4)-14*4+1)*900))
	}
	ts := q.t.Format(time.RFC3339)
	if r.Intn(5) == 0 {
		ts = q.t.Format("2006-01-02T15:04:05") + "." + strconv.Itoa(r.Intn(1000)) + q.t.Format("Z07:00")
	}
	coord := func(max float64) float64 {
		switch r.Intn(6) {
		case 0:
			return []float64{0, max, -max, max / 2, -max / 2, 1e-9, -1e-9, max - 1e-9}[r.Intn(8)]
		case 1:
			return math.Round((r.Float64()*2-1)*max*1e4) / 1e4
		case 2:
			return float64(r.Intn(2*int(max)) - int(max))
		}
		return (r.Float64()*2 - 1) * max
	}
	q.lat, q.lon = coord(90), coord(180)
	type flag struct{ k, v string }
	fl := []flag{{"pid", fmt.Sprint(q.pid)}, {"oid", fmt.Sprint(q.oid)}, {"time", ts}}
	if r.Intn(8) > 0 {
		fl = append(fl, flag{"lat", strconv.FormatFloat(q.lat, 'f', -1, 64)})
	} else {
		q.lat = 0
	}
	if r.Intn(8) > 0 {
		fl = append(fl, flag{"lon", strconv.FormatFloat(q.lon, 'f', -1, 64)})
	} else {
		q.lon = 0
	}
	if r.Intn(4) > 0 {
		q.liquid = int64(ref.Bound(r, 32))
		fl = append(fl, flag{"liquid", fmt.Sprint(q.liquid)})
	}
	r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	for _, f := range fl {
		d := []string{"-", "--"}[r.Intn(2)]
		if r.Intn(2) == 0 {
			q.args = append(q.args, d+f.k+"="+f.v)
		} else {
			q.args = append(q.args, d+f.k, f.v)
		}
	}
	return q
}

func near(a uint32, want float64) bool { return math.Abs(float64(a)-want) <= 1 }

// verify compares the bytes sent with the request.
func (q *request) verify(b []byte) string {
	p, err := ref.Parse(b)
	if err != nil {
		return "not a valid EGTS packet: " + err.Error()
	}
	switch {
	case p.PT != ref.PtAppdata:
		return fmt.Sprintf("packet type %d", p.PT)
	case p.ENA != 0 || p.CMP != 0 || p.PRF != 0:
		return fmt.Sprintf("flags %#x", p.Flags())
	case int64(p.PID) != q.pid:
		return fmt.Sprintf("packet id %d, requested %d", p.PID, q.pid)
	case len(p.Records) != 1:
		return fmt.Sprintf("%d records", len(p.Records))
	}
	rec := p.Records[0]
	if !rec.OBFE || int64(rec.OID) != q.oid {
		return fmt.Sprintf("object id %d (%v), requested %d", rec.OID, rec.OBFE, q.oid)
	}
	if rec.SST != 2 || rec.RST != 2 {
		return fmt.Sprintf("services %d and %d", rec.SST, rec.RST)
	}
	pos, liq := 0, 0
	for _, s := range rec.Subs {
		v := s.V.Wire()
		u := func(i int) uint32 {
			return uint32(v[i]) | uint32(v[i+1])<<8 | uint32(v[i+2])<<16 | uint32(v[i+3])<<24
		}
		switch s.Type {
		case 16:
			pos++
			if len(v) < 21 {
				return fmt.Sprintf("position of %d bytes", len(v))
			}
			fl := v[12]
			if want := 21 + 3*int(fl>>7); len(v) != want {
				return fmt.Sprintf("position of %d bytes with ALTE %d", len(v), fl>>7)
			}
			if want := q.t.Unix() - epoch; int64(u(0)) != want {
				return fmt.Sprintf("time %d, requested %d", u(0), want)
			}
			if want := math.Abs(q.lat) / 90 * 0xFFFFFFFF; !near(u(4), want) {
				return fmt.Sprintf("latitude %d, requested %v", u(4), want)
			}
			if want := math.Abs(q.lon) / 180 * 0xFFFFFFFF; !near(u(8), want) {
				return fmt.Sprintf("longitude %d, requested %v", u(8), want)
			}
			if q.lat != 0 && (fl>>5&1 == 1) != (q.lat < 0) {
				return fmt.Sprintf("LAHS %d with latitude %v", fl>>5&1, q.lat)
			}
			if q.lon != 0 && (fl>>6&1 == 1) != (q.lon < 0) {
				return fmt.Sprintf("LOHS %d with longitude %v", fl>>6&1, q.lon)
			}
			if fl&1 == 0 {
				return "position not valid"
			}
		case 27:
			liq++
			if len(v) != 7 {
				return fmt.Sprintf("liquid sensor of %d bytes", len(v))
			}
			want := q.liquid
			if want < 0 {
				want = 0
			}
			if v[0]&7 != 1 {
				return fmt.Sprintf("liquid level of sensor %d, not of the first", v[0]&7)
			}
			if int64(u(3)) != want || v[0]>>3&1 == 1 {
				return fmt.Sprintf("liquid level %d, requested %d", u(3), want)
			}
		default:
			return fmt.Sprintf("subrecord type %d", s.Type)
		}
	}
	if pos != 1 || liq > 1 || q.liquid >= 0 && liq != 1 {
		return fmt.Sprintf("%d positions and %d liquid levels", pos, liq)
	}
	return ""
}

// run starts packet-gen and waits for it.
func runGen(limit time.Duration, args []string) (code int, out string, took time.Duration, late bool) {
	return runGenIn(nil, limit, args)
}

// runGenIn does so under another program.
func runGenIn(wrap []string, limit time.Duration, args []string) (code int, out string, took time.Duration, late bool) {
	l := append(append(append([]string(nil), wrap...), srv.Binary("packet-gen", false)), args...)
	cmd := exec.Command(l[0], l[1:]...)
	cmd.Env = append(os.Environ(), "TZ=Asia/Kathmandu")
	var b strings.Builder
	cmd.Stdout, cmd.Stderr = &b, &b
	t := time.Now()
	if err := cmd.Start(); err != nil {
		return -1, err.Error(), 0, true
	}
	done := make(chan bool)
	go func() { cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		late = true
	}
	return cmd.ProcessState.ExitCode(), b.String(), time.Since(t), late
}

// ack is a confirmation of pid with the given results.
func ack(r *rand.Rand, pid uint16, result byte, statuses ...byte) *ref.Packet {
	p := &ref.Packet{PRV: 1, PT: ref.PtResponse, PID: uint16(r.Uint32()), RPID: pid, Result: result, PR: byte(r.Intn(4))}
	if r.Intn(6) == 0 {
		p.RTE, p.PRA, p.RCA, p.TTL = 1, uint16(r.Uint32()), uint16(r.Uint32()), 5
	}
	for i := 0; i < len(statuses); {
		rec := ref.Record{RN: uint16(i), SST: 2, RST: 2, RSOD: 1}
		if r.Intn(3) == 0 {
			rec.OBFE, rec.OID = true, r.Uint32()
		}
		for n := 1 + r.Intn(2); n > 0 && i < len(statuses); n, i = n-1, i+1 {
			rec.Subs = append(rec.Subs, ref.Sub{Type: 0, V: &ref.Response{CRN: 1, RST: statuses[i]}})
		}
		p.Records = append(p.Records, rec)
	}
	return p
}

// behaviour of the server after it has got the packet.
type behaviour struct {
	name    string
	ok      bool
	timeout int // 0: none given
	do      func(r *rand.Rand, pid uint16, c net.Conn)
	slow    bool
}

func send(c net.Conn, b []byte) { c.Write(b) }

func pieces(r *rand.Rand, c net.Conn, b []byte, pause time.Duration) {
	for len(b) > 0 {
		n := 1 + r.Intn(len(b))
		c.Write(b[:n])
		b = b[n:]
		time.Sleep(pause)
	}
}

var good = func(r *rand.Rand, pid uint16) []byte {
	st := make([]byte, 1+r.Intn(3))
	return ack(r, pid, 0, st...).Wire()
}

var behaviours = []behaviour{
	{"one write", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, good(r, pid)) }, false},
	{"byte by byte", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		for _, x := range good(r, pid) {
			c.Write([]byte{x})
			time.Sleep(time.Millisecond)
		}
	}, false},
	{"pieces", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) { pieces(r, c, good(r, pid), 10*time.Millisecond) }, false},
	{"after the header", true, 5, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		n := []int{1, 7, 10, 11, 12, len(b) - 1}[r.Intn(6)]
		c.Write(b[:n])
		time.Sleep(60 * time.Millisecond)
		c.Write(b[n:])
	}, false},
	{"more behind", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		send(c, append(good(r, pid), ack(r, pid+1, byte(r.Intn(2)), 0).Wire()...))
	}, false},
	{"closed behind", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, good(r, pid)); c.Close() }, false},
	{"many records", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		send(c, ack(r, pid, 0, make([]byte, 1000+r.Intn(3000))...).Wire())
	}, false},
	{"after a while", true, 0, func(r *rand.Rand, pid uint16, c net.Conn) { time.Sleep(4200 * time.Millisecond); send(c, good(r, pid)) }, true},
	{"after a while, with timeout", true, 4, func(r *rand.Rand, pid uint16, c net.Conn) { time.Sleep(3200 * time.Millisecond); send(c, good(r, pid)) }, true},

	{"refused", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, ack(r, pid, byte(1+r.Intn(255)), 0).Wire()) }, false},
	{"refused without records", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, ack(r, pid, byte(1+r.Intn(255))).Wire()) }, false},
	{"record refused", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, ack(r, pid, 0, byte(1+r.Intn(255))).Wire()) }, false},
	{"one record refused", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		st := make([]byte, 2+r.Intn(5))
		st[r.Intn(len(st))] = byte(1 + r.Intn(255))
		send(c, ack(r, pid, 0, st...).Wire())
	}, false},
	{"other packet id", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, good(r, pid+uint16(1+r.Intn(65535)))) }, false},
	{"packet id swapped", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		o := pid<<8 | pid>>8
		if o == pid {
			o++
		}
		send(c, good(r, o))
	}, false},
	{"no records", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, ack(r, pid, 0).Wire()) }, false},
	{"record without status", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		p := ack(r, pid, 0)
		p.Records = []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{Type: 9, V: &ref.Result{RCD: 0}}}}}
		send(c, p.Wire())
	}, false},
	{"not a response", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		p := ack(r, pid, 0, 0)
		p.PT, p.PID = ref.PtAppdata, pid
		send(c, p.Wire())
	}, false},
	{"result code", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		p := &ref.Packet{PRV: 1, PT: ref.PtAppdata, PID: pid, Records: []ref.Record{{RN: 1, SST: 1, RST: 1, Subs: []ref.Sub{{Type: 9, V: &ref.Result{RCD: 0}}}}}}
		send(c, p.Wire())
	}, false},
	{"body missing", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, ack(r, pid, 0, 0).WireBody(nil)) }, false},
	{"header damaged", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		b[[]int{4, 7, 8, 10}[r.Intn(4)]] ^= byte(1 + r.Intn(255))
		send(c, b)
	}, false},
	{"body damaged", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		b[int(b[3])+r.Intn(len(b)-int(b[3]))] ^= byte(1 + r.Intn(255))
		send(c, b)
	}, false},
	{"cut off", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		send(c, b[:r.Intn(len(b))])
		c.Close()
	}, false},
	{"cut off and silent", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		send(c, b[:1+r.Intn(len(b)-1)])
	}, true},
	{"garbage", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		send(c, b)
		c.(*net.TCPConn).CloseWrite()
	}, false},
	{"text", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, []byte("HTTP/1.1 400 Bad Request\r\n\r\n")) }, false},
	{"zeros", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, make([]byte, r.Intn(100000))) }, false},
	{"short header length", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := good(r, pid)
		b[3] = byte(r.Intn(11))
		send(c, b)
	}, false},
	{"huge lengths", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		b := make([]byte, 70000)
		copy(b, good(r, pid))
		b[3], b[5], b[6] = 255, 255, 255
		send(c, b)
	}, false},
	{"closed", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { c.Close() }, false},
	{"reset", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { c.(*net.TCPConn).SetLinger(0); c.Close() }, false},
	{"silent", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {}, true},
	{"silent, default timeout", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) {}, true},
	{"late", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) { time.Sleep(2 * time.Second); send(c, good(r, pid)) }, true},
	{"late, default timeout", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { time.Sleep(5900 * time.Millisecond); send(c, good(r, pid)) }, true},
	{"too slow", false, 1, func(r *rand.Rand, pid uint16, c net.Conn) {
		for _, x := range good(r, pid) { // takes more than 3 s
			c.Write([]byte{x})
			time.Sleep(150 * time.Millisecond)
		}
	}, true},
	{"old confirmation", false, 0, func(r *rand.Rand, pid uint16, c net.Conn) { send(c, append(good(r, pid-1), good(r, pid)...)) }, false},
}

// G01 - packet-gen sends what it is asked to and reports the real outcome.
func G01(r *h.Run) {
	r.Rule = "one evaluation per run of packet-gen; distinct: arguments and what the server does; nontrivial always"
	slow := make(chan bool, 64)
	r.Parallel("servers", len(behaviours)*r.Scale(40, 600), 24, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 4*len(behaviours) {
			return
		}
		b := behaviours[i%len(behaviours)]
		if b.slow {
			if i/len(behaviours) >= r.Scale(3, 60) {
				return
			}
			slow <- true
			defer func() { <-slow }()
		}
		q := genRequest(rng)
		ln, err := net.Listen("tcp", fmt.Sprintf("127.27.%d.%d:0", i%251, 1+i%83))
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		got := make(chan []byte, 1)
		go func() {
			defer close(got)
			c, err := ln.Accept()
			if err != nil {
				return
			}
			defer c.Close()
			var buf []byte
			c.SetReadDeadline(time.Now().Add(srv.Patience))
			for {
				p := make([]byte, 4096)
				n, err := c.Read(p)
				buf = append(buf, p[:n]...)
				if len(buf) >= 10 {
					if l, err := ref.FrameLen(buf); err == nil && len(buf) >= l {
						break
					}
				}
				if err != nil {
					got <- buf
					return
				}
			}
			b.do(rand.New(rand.NewSource(int64(i))), uint16(q.pid), c)
			// whatever else it sends
			c.SetReadDeadline(time.Now().Add(srv.Patience))
			rest, _ := io.ReadAll(c)
			got <- append(buf, rest...)
		}()
		args := append(q.args, "--server", ln.Addr().String())
		limit := 5
		if b.timeout > 0 {
			args = append(args, fmt.Sprintf("--timeout=%d", b.timeout))
			limit = b.timeout
		}
		rep := map[string]any{"arguments": args, "server": b.name}
		over := srv.Oversleep()
		code, out, took, late := runGen(time.Duration(limit)*time.Second+srv.Patience, args)
		ln.Close()
		rep["exit status"], rep["output"] = code, out
		sent := <-got
		rep["sent"] = fmt.Sprintf("%x", sent)
		if late {
			r.Violate("does not end", fmt.Sprintf("packet-gen does not end (%s)", b.name), rep)
			return
		}
		if strings.Contains(out, "goroutine ") || code < 0 {
			r.Violate("panic", fmt.Sprintf("packet-gen panics (%s): %.500s", b.name, out), rep)
		}
		if d := q.verify(sent); d != "" {
			r.Violate("sent", "packet-gen does not send what was asked for: "+d, rep)
		}
		// a reply that was on time may be late on a machine that is busy with something else
		starved := srv.Oversleep()-over > int64(time.Second)
		if (code == 0) != b.ok && !(b.ok && starved) {
			r.Violate("exit status", fmt.Sprintf("packet-gen ends with %d although the server's reply is: %s", code, b.name), rep)
		}
		if took > time.Duration(limit)*time.Second+5*time.Second && !starved {
			r.Violate("timeout", fmt.Sprintf("packet-gen takes %v with a timeout of %d s (%s)", took, limit, b.name), rep)
		}
		r.Eval(fmt.Sprint(b.name, args[:len(args)-1]))
		r.Count("runs", 1)
		if b.ok {
			r.Count("successes", 1)
		} else {
			r.Count("failures", 1)
		}
		if i < 3 {
			r.Sample(rep)
		}
	})
	resetAtOnce(r)
	badArguments(r)
	withReceiver(r)
}

// resetAtOnce ends connections as soon as they are there, so that some packets
// cannot be written any more.
func resetAtOnce(r *h.Run) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer ln.Close()
	for k := 0; k < 4; k++ {
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					if time.Now().UnixNano()%2 == 0 {
						time.Sleep(3 * time.Millisecond)
					}
					c.(*net.TCPConn).SetLinger(0)
					c.Close()
				}()
			}
		}()
	}
	// strace holds packet-gen back between the connection and the packet
	hold := []string{"strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=setsockopt", "-e", "inject=setsockopt:delay_enter=20000"}
	if _, err := exec.LookPath(hold[0]); err != nil || exec.Command(hold[0], append(hold[1:], "true")...).Run() != nil {
		hold = nil
		r.Count("packet-gen cannot be held back", 1)
	}
	r.Parallel("reset at once", r.Scale(120, 1200), 6, func(i int, rng *rand.Rand) {
		q := genRequest(rng)
		args := append(q.args, "--server="+ln.Addr().String())
		wrap := hold
		if i%2 == 0 {
			wrap = nil
		}
		code, out, _, late := runGenIn(wrap, 2*srv.Patience, args)
		rep := map[string]any{"arguments": args, "exit status": code, "output": out}
		switch {
		case late:
			r.Violate("does not end", "packet-gen does not end when its connection is reset at once", rep)
		case strings.Contains(out, "goroutine ") || code < 0:
			r.Violate("panic", "packet-gen panics when its connection is reset at once", rep)
		case code == 0:
			r.Violate("exit status", "packet-gen claims success although its connection was reset at once", rep)
		}
		r.Eval(fmt.Sprint("reset ", args[:len(args)-1]))
		what := "read"
		if strings.Contains(out, "write: ") {
			what = "write"
		}
		r.Count("connections reset before the "+what, 1)
	})
}

func badArguments(r *h.Run) {
	var mu = make(chan bool, 1)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer ln.Close()
	received := map[string]int{}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				b := make([]byte, 65536)
				c.SetReadDeadline(time.Now().Add(srv.Patience))
				n, _ := io.ReadAtLeast(c, b, 11)
				if n > 10 {
					mu <- true
					received[fmt.Sprintf("%x", b[:n])]++
					<-mu
					// as if all were well
					c.Write(ack(rand.New(rand.NewSource(1)), uint16(b[7])|uint16(b[8])<<8, 0, 0).Wire())
				}
				c.Close()
			}()
		}
	}()
	base := map[string]string{"pid": "7", "oid": "12", "time": "2021-12-16T09:12:00Z", "lat": "45", "lon": "60.344", "liquid": "3", "server": ln.Addr().String(), "timeout": "5"}
	bad := map[string][]string{
		"pid":     {"", "0", "-1", "65536", "65537", "131073", "4294967297", "99999999999999999999", "x", "1.5", "7x", " 7", "NaN"},
		"oid":     {"", "0", "-1", "-12", "4294967296", "4294967308", "99999999999999999999", "x", "1e3"},
		"time":    {"", "x", "2021-12-16", "2021-12-16T09:12:00", "2021-12-16 09:12:00Z", "2021-13-16T09:12:00Z", "2021-02-30T09:12:00Z", "2021-12-16T25:12:00Z", "1639645920", "2009-12-31T23:59:59Z", "1970-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "2146-02-07T06:28:16Z", "2200-01-01T00:00:00Z", "9999-12-31T23:59:59Z"},
		"lat":     {"", "x", "90.001", "-90.001", "91", "-91", "180", "1e10", "NaN", "Inf", "-Inf", "45N", "45,5"},
		"lon":     {"", "x", "180.001", "-180.001", "181", "-181", "360", "1e300", "NaN", "+Inf", "-Inf", "60E"},
		"liquid":  {"", "-1", "4294967296", "4294967299", "99999999999999999999", "x", "1.5"},
		"server":  {"", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:port", "no such host:1", closedAddr()},
		"timeout": {"", "x", "1.5", "5s"},
	}
	type cas struct {
		what string
		args []string
	}
	var cases []cas
	list := func(m map[string]string) (l []string) {
		for _, k := range []string{"pid", "oid", "time", "lat", "lon", "liquid", "server", "timeout"} {
			if v, ok := m[k]; ok {
				l = append(l, "--"+k+"="+v)
			}
		}
		return
	}
	with := func(k, v string) map[string]string {
		m := map[string]string{}
		for a, b := range base {
			m[a] = b
		}
		m[k] = v
		return m
	}
	for k, vs := range bad {
		for _, v := range vs {
			cases = append(cases, cas{k + " " + v, list(with(k, v))})
		}
	}
	for _, k := range []string{"pid", "oid", "time"} {
		m := with(k, "")
		delete(m, k)
		cases = append(cases, cas{"no " + k, list(m)})
	}
	cases = append(cases, cas{"an unknown option", append(list(base), "--speed=3")}, cas{"no arguments", nil})
	r.Parallel("arguments", len(cases), 12, func(i int, rng *rand.Rand) {
		c := cases[i]
		code, out, _, late := runGen(2*srv.Patience, c.args)
		rep := map[string]any{"arguments": c.args, "exit status": code, "output": out}
		switch {
		case late:
			r.Violate("does not end", "packet-gen does not end with "+c.what, rep)
		case strings.Contains(out, "goroutine ") || code < 0:
			r.Violate("panic", "packet-gen panics with "+c.what, rep)
		case code == 0:
			r.Violate("exit status", "packet-gen claims success with "+c.what, rep)
		}
		r.Eval("bad " + c.what)
		r.Count("bad arguments refused", 1)
	})
	mu <- true
	for p := range received {
		r.Violate("sent", "packet-gen sends a packet although its arguments are invalid: "+p, nil)
	}
	<-mu
	// the same server is fine with good arguments
	if code, out, _, _ := runGen(2*srv.Patience, list(base)); code != 0 {
		r.Violate("exit status", "packet-gen fails although the packet is confirmed: "+out, map[string]any{"arguments": list(base)})
	}
}

// defaultServer runs packet-gen without a server address.
func defaultServer(r *h.Run, rng *rand.Rand) {
	ln, err := net.Listen("tcp", "127.0.0.1:5555")
	if err != nil {
		r.Count("default address not free", 1)
		return
	}
	got := make(chan []byte, 1)
	go func() {
		defer close(got)
		c, err := ln.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		c.SetReadDeadline(time.Now().Add(srv.Patience))
		b := make([]byte, 4096)
		n, _ := io.ReadAtLeast(c, b, 11)
		if n > 10 {
			c.Write(ack(rng, uint16(b[7])|uint16(b[8])<<8, 0, 0).Wire())
		}
		got <- b[:n]
	}()
	q := genRequest(rng)
	code, out, _, _ := runGen(2*srv.Patience, q.args)
	ln.Close()
	rep := map[string]any{"arguments": q.args, "exit status": code, "output": out}
	if sent := <-got; code != 0 || q.verify(sent) != "" {
		r.Violate("default server", fmt.Sprintf("packet-gen without a server address ends with %d, localhost:5555 gets %x", code, sent), rep)
	}
	r.Count("runs with the default address", 1)
	r.Eval(fmt.Sprint("default ", q.args))
}

// withReceiver runs packet-gen against the real server.
func withReceiver(r *h.Run) {
	rec := &srv.Recorder{}
	s, err := srv.Start(time.Minute, rec)
	if err != nil {
		r.Violate("server", err.Error(), nil)
		return
	}
	defer s.Stop()
	rng := r.Rng("receiver")
	defaultServer(r, rng)
	for i := 0; i < r.Scale(40, 400); i++ {
		q := genRequest(rng)
		code, out, _, _ := runGen(2*srv.Patience, append(q.args, "--server="+s.Addr))
		rep := map[string]any{"arguments": q.args, "exit status": code, "output": out}
		got := rec.Take()
		if code != 0 {
			r.Violate("exit status", fmt.Sprintf("packet-gen ends with %d against the receiver: %s", code, out), rep)
			return
		}
		if len(got) != 1 || len(got[0].E.Loc) != 1 {
			r.Violate("exported", fmt.Sprintf("%d records were stored", len(got)), rep)
			return
		}
		e := got[0].E
		l := e.Loc[0]
		switch {
		case int64(e.ClientID) != q.oid:
			r.Violate("exported", fmt.Sprintf("client %d was stored, requested %d", e.ClientID, q.oid), rep)
		case math.Abs(l.Lat-q.lat) > 1e-7 || math.Abs(l.Lng-q.lon) > 1e-7:
			r.Violate("exported", fmt.Sprintf("position %v %v was stored, requested %v %v", l.Lat, l.Lng, q.lat, q.lon), rep)
		case e.Nav != q.t.Unix():
			r.Violate("exported", fmt.Sprintf("time %d was stored, requested %d", e.Nav, q.t.Unix()), rep)
		}
		r.Eval(fmt.Sprint("receiver ", q.args))
		r.Count("runs against the receiver", 1)
	}
}
