package srv

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

var received = regexp.MustCompile(`(?m)^received: ([0-9a-fA-F]*)\r?$`)

// sendEgts is the script under test.
func sendEgts() string { return filepath.Join(os.Getenv("VERIF_REPO"), "tools", "send_egts.py") }

// packetFile writes packets the way people keep them: one line of hex digits each.
func packetFile(rng *rand.Rand, dir string, packets [][]byte) (name, how string, err error) {
	end := []string{"\n", "\n", "\r\n"}[rng.Intn(3)]
	digits := rng.Intn(3)
	var b strings.Builder
	blank := rng.Intn(3) == 0
	for i, p := range packets {
		if blank && rng.Intn(2) == 0 {
			b.WriteString(strings.Repeat(end, 1+rng.Intn(3)))
		}
		s := hex.EncodeToString(p)
		switch digits {
		case 1:
			s = strings.ToUpper(s)
		case 2:
			if rng.Intn(2) == 0 {
				s = strings.ToUpper(s)
			}
		}
		b.WriteString(s)
		if i < len(packets)-1 {
			b.WriteString(end)
		}
	}
	how = fmt.Sprintf("end %q digits %d blank lines %v", end, digits, blank)
	switch rng.Intn(3) {
	case 0:
		how += " no end of line at the end"
	case 1:
		b.WriteString(end)
	case 2:
		b.WriteString(end + end)
		how += " blank line at the end"
	}
	name = filepath.Join(dir, fmt.Sprintf("packets%d.txt", rng.Int63()))
	return name, how, os.WriteFile(name, []byte(b.String()), 0o644)
}

// runScript waits for the script to end.
func runScript(limit time.Duration, dir string, args ...string) (p *Proc, code int, late bool) {
	p, err := StartProc(dir, []string{"PYTHONDONTWRITEBYTECODE=1"}, "python3", append([]string{sendEgts()}, args...)...)
	if err != nil {
		return nil, -1, false
	}
	select {
	case <-p.Done:
	case <-time.After(limit):
		late = true
		p.Kill()
	}
	return p, p.Cmd.ProcessState.ExitCode(), late
}

// G03 - send_egts.py replays a file of packets.
func G03(r *h.Run) {
	r.Rule = "one evaluation per run of send_egts.py; distinct: packets and their file's form; nontrivial always"
	dir, err := os.MkdirTemp("", "verif-g03-")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.RemoveAll(dir)
	recorded := recordedPackets()
	if len(recorded) < 50 {
		r.Inconclusive("only %d recorded packets", len(recorded))
		return
	}
	r.Parallel("scripted", r.Scale(96, 1200), 32, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 64 {
			return
		}
		packets := somePackets(rng, recorded)
		name, how, err := packetFile(rng, dir, packets)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer os.Remove(name)
		replay(r, i, rng, dir, name, how, packets)
	})
	r.Parallel("receiver", r.Scale(24, 300), 12, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 12 {
			return
		}
		throughReceiver(r, rng, dir)
	})
	r.Parallel("failures", r.Scale(16, 120), 16, func(i int, rng *rand.Rand) { sendFailures(r, i, rng, dir) })
}

func recordedPackets() (out [][]byte) {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO"), "test", "egts_packages.csv"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Fields(string(b)) {
		if p, err := hex.DecodeString(l); err == nil {
			out = append(out, p)
		}
	}
	return
}

// somePackets are at most five, because the script rests for a second after each.
func somePackets(rng *rand.Rand, recorded [][]byte) (packets [][]byte) {
	g := NewGen(rng)
	for n := 1 + rng.Intn(5); n > 0; n-- {
		switch rng.Intn(8) {
		case 0, 1:
			packets = append(packets, recorded[rng.Intn(len(recorded))])
		case 2:
			packets = append(packets, g.Sized(200+rng.Intn(60000)).Wire)
		case 3: // whatever the bytes, they are sent as they are
			b := make([]byte, 1+rng.Intn(3000))
			rng.Read(b)
			packets = append(packets, b)
		case 4:
			if len(packets) > 0 { // the same once more
				packets = append(packets, packets[rng.Intn(len(packets))])
				continue
			}
			fallthrough
		case 5:
			packets = append(packets, g.Damaged().Wire)
		default:
			packets = append(packets, g.Data().Wire)
		}
	}
	return
}

// replay runs the script against a server that takes its time with the answers.
func replay(r *h.Run, i int, rng *rand.Rand, dir, name, how string, packets [][]byte) {
	addr := FreeAddr()
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer ln.Close()
	type result struct {
		early, stray int // packet answered, bytes that came before its answer
		got          []byte
		answers      [][]byte
		conns        int
	}
	pauses := make([]time.Duration, len(packets))
	answers := make([][]byte, len(packets))
	for k := range packets {
		pauses[k] = time.Duration(20+rng.Intn(400)) * time.Millisecond
		if rng.Intn(4) == 0 {
			pauses[k] = 1500 * time.Millisecond
		}
		if i < 24 && k == i%len(packets) { // patience is not limited
			pauses[k] = time.Duration([]int{2600, 3500, 6000, 11000}[i%4])*time.Millisecond + time.Duration(i/23)*20*time.Second
			r.Count("answers after more than 2 s", 1)
		}
		n := []int{1, 16, 29, 500, 1400, 2048}[rng.Intn(6)]
		answers[k] = make([]byte, n)
		rng.Read(answers[k])
	}
	res := make(chan result, 1)
	go func() {
		x := result{early: -1}
		defer func() { res <- x }()
		c, err := ln.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		x.conns = 1
		for k := range packets {
			b := make([]byte, len(packets[k]))
			c.SetReadDeadline(time.Now().Add(2 * Patience))
			n, err := io.ReadFull(c, b)
			x.got = append(x.got, b[:n]...)
			if err != nil {
				return
			}
			// nothing else may come before the answer
			c.SetReadDeadline(time.Now().Add(pauses[k]))
			b = make([]byte, 65536)
			if n, _ := c.Read(b); n > 0 {
				x.early, x.stray = k, n
				x.got = append(x.got, b[:n]...)
				return
			}
			if _, err := c.Write(answers[k]); err != nil {
				return
			}
			x.answers = append(x.answers, answers[k])
		}
		c.SetReadDeadline(time.Now().Add(2 * Patience))
		rest, _ := io.ReadAll(c)
		x.got = append(x.got, rest...)
	}()
	host, port, _ := net.SplitHostPort(addr)
	args := [][]string{{"-s", host, "-p", port, name}, {"--host", host, "--port", port, name}, {name, "--port=" + port, "--host=" + host}}[rng.Intn(3)]
	p, code, late := runScript(4*Patience, dir, args...)
	ln.Close()
	if p == nil {
		r.Inconclusive("python3 does not start")
		return
	}
	x := <-res
	rep := map[string]any{"packets": hexes(packets), "file": how, "arguments": args, "output": tail(p.Output()), "exit status": code}
	var want []byte
	for _, b := range packets {
		want = append(want, b...)
	}
	rep["sent"] = hex.EncodeToString(clip(x.got))
	switch {
	case late:
		r.Violate("does not end", "send_egts.py does not end although every packet it sent was answered", rep)
	case x.early >= 0:
		r.Violate("does not wait", fmt.Sprintf("%d bytes follow packet %d before its answer", x.stray, x.early), rep)
	case !bytes.Equal(x.got, want):
		r.Violate("sent", fmt.Sprintf("%d bytes sent, the file has %d packets of %d bytes; they differ from byte %d", len(x.got), len(packets), len(want), firstDiff(x.got, want)), rep)
	case code != 0:
		r.Violate("exit status", fmt.Sprintf("send_egts.py ends with %d although every packet was sent and answered", code), rep)
	default:
		shown := received.FindAllStringSubmatch(p.Output(), -1)
		for k := range x.answers {
			if k >= len(shown) || !strings.EqualFold(shown[k][1], hex.EncodeToString(x.answers[k])) {
				r.Violate("shown", fmt.Sprintf("the answer to packet %d (%d bytes) is not shown as it was", k, len(x.answers[k])), rep)
				break
			}
		}
		if len(shown) > len(x.answers) {
			r.Violate("shown", fmt.Sprintf("%d answers shown, %d were given", len(shown), len(x.answers)), rep)
		}
	}
	r.Eval(fmt.Sprintf("%s %x", how, clip(want)))
	r.Count("packets replayed", int64(len(packets)))
	r.Count("files "+strings.SplitN(how, " digits", 2)[0], 1)
	if strings.Contains(how, "no end of line") {
		r.Count("files without an end of line at the end", 1)
	}
	if i < 2 {
		r.Sample(rep)
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func hexes(bs [][]byte) (out []string) {
	for _, b := range bs {
		out = append(out, hex.EncodeToString(clip(b)))
	}
	return
}

// throughReceiver replays packets into the real server.
func throughReceiver(r *h.Run, rng *rand.Rand, dir string) {
	rec := &Recorder{}
	s, err := Start(time.Minute, rec)
	if err != nil {
		r.Violate("server", err.Error(), nil)
		return
	}
	defer s.Stop()
	g := NewGen(rng)
	g.Auth = 0
	var items []*Item
	var packets [][]byte
	for n := 1 + rng.Intn(4); n > 0; n-- {
		it := g.Data()
		if rng.Intn(3) == 0 {
			it = g.Sized(100 + rng.Intn(3000))
		}
		if it.Result || len(it.P.Records) > 200 { // a second packet would come for it, or a large one
			continue
		}
		items, packets = append(items, it), append(packets, it.Wire)
	}
	name, how, err := packetFile(rng, dir, packets)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.Remove(name)
	host, port, _ := net.SplitHostPort(s.Addr)
	p, code, late := runScript(4*Patience, dir, "-s", host, "-p", port, name)
	if p == nil {
		r.Inconclusive("python3 does not start")
		return
	}
	rep := map[string]any{"packets": hexes(packets), "file": how, "exit status": code, "output": tail(p.Output())}
	shown := received.FindAllStringSubmatch(p.Output(), -1)
	switch {
	case late:
		r.Violate("does not end", "send_egts.py does not end against the receiver", rep)
		return
	case code != 0:
		r.Violate("exit status", fmt.Sprintf("send_egts.py ends with %d against the receiver", code), rep)
		return
	case len(shown) != len(items):
		r.Violate("shown", fmt.Sprintf("%d answers of the receiver shown to %d packets", len(shown), len(items)), rep)
		return
	}
	for k := range items {
		raw, _ := hex.DecodeString(shown[k][1])
		q, err := ref.Parse(raw)
		if _, key, m := judgeAcks(items[k:k+1], []Reply{{P: q, Raw: raw, Err: err}}, true, false); key != "" {
			r.Violate("answer", fmt.Sprintf("the answer shown for packet %d does not confirm it: %s", k, m), rep)
			return
		}
	}
	if d := diffFlat(flatten(exps(rec.Take())), flatten(expected(items))); d != "" {
		r.Violate("exported", "through the receiver: "+d, rep)
	}
	r.Eval(fmt.Sprintf("receiver %s %x", how, clip(bytes.Join(packets, nil))))
	r.Count("packets replayed into the receiver", int64(len(items)))
}

// sendFailures: nobody there, no file, no hex digits, a server that goes away.
func sendFailures(r *h.Run, i int, rng *rand.Rand, dir string) {
	g := NewGen(rng)
	packets := [][]byte{g.Data().Wire, g.Data().Wire, g.Data().Wire}
	name, _, err := packetFile(rng, dir, packets)
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	defer os.Remove(name)
	addr := FreeAddr()
	host, port, _ := net.SplitHostPort(addr)
	what := []string{"nobody listens", "no such file", "not hexadecimal", "the server closes"}[i%4]
	args := []string{"-s", host, "-p", port, name}
	if what != "nobody listens" {
		ln, err := net.Listen("tcp", addr)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer ln.Close()
		go func() {
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				go func() {
					defer c.Close()
					b := make([]byte, 65536)
					for k := 0; ; k++ {
						if n, err := c.Read(b); err != nil || n == 0 || what == "the server closes" {
							return
						}
						c.Write([]byte{1, 2, 3})
					}
				}()
			}
		}()
	}
	switch what {
	case "no such file":
		args[4] += ".missing"
	case "not hexadecimal":
		b := []byte(hex.EncodeToString(packets[0]))
		b[rng.Intn(len(b))] = "xgz-.:"[rng.Intn(6)]
		os.WriteFile(name, append(b, '\n'), 0o644)
	}
	p, code, late := runScript(4*Patience, dir, args...)
	if p == nil {
		r.Inconclusive("python3 does not start")
		return
	}
	rep := map[string]any{"what": what, "arguments": args, "exit status": code, "output": tail(p.Output())}
	switch {
	case late:
		r.Violate("does not end", "send_egts.py does not end: "+what, rep)
	case code == 0 && what != "the server closes":
		r.Violate("exit status", "send_egts.py claims success: "+what, rep)
	}
	r.Eval("failure " + what + fmt.Sprint(i))
	r.Count("failures", 1)
}
