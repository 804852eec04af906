package sto

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/sirupsen/logrus"
	"gopkg.in/yaml.v2"

	"github.com/ElectroUnion/egts-gate/cli/receiver/config"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"

	"verif/harness/h"
	"verif/harness/srv"
)

// settings is what a generated file says.
type settings struct {
	host, port string
	ttl        int64
	level      logrus.Level
	store      map[string]map[string]string
	text       string
	style      string
}

// scalar writes a string the way a person might.
func scalar(r *rand.Rand, s string, flow bool) string {
	plain := regexp.MustCompile(`^[A-Za-z_/][A-Za-z0-9_./-]*$`)
	switch strings.ToLower(s) {
	case "", "null", "true", "false", "yes", "no", "on", "off", "y", "n":
		plain = regexp.MustCompile(`^never$`)
	}
	if plain.MatchString(s) && r.Intn(2) == 0 {
		return s
	}
	number := regexp.MustCompile(`^(0|[1-9][0-9]*)(\.[0-9]+)*$`)
	if number.MatchString(s) && r.Intn(2) == 0 {
		return s
	}
	if r.Intn(2) == 0 && !strings.ContainsAny(s, "\n\t\x01\\") {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteString(`\` + string(c))
		case c == '\n':
			b.WriteString(`\n`)
		case c == '\t':
			b.WriteString(`\t`)
		case c < 32:
			fmt.Fprintf(&b, `\x%02x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func anyText(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return []string{"", "null", "true", "no", "~", "0", "007", "1e3", "0x10", "12:30", "1_0", "- a", "a: b", "# not a comment", "{x}", "[y]", "*z", "&w", "!t", "%d", "@", "`", "|", ">", " lead", "trail ", "a\nb", "tab\there", "кириллица", `c:\dir`, `"q"`, "it's", "\x01", ".5", "1.10", "2021-12-16", "pa$word", "$HOME", "${HOME}/x", "$$", "%HOME%", "~/x", "{{x}}", "a,b", "a;b", "a%20b", "&amp;", "A_B", "://u:p@h/?a=b#c"}[r.Intn(49)]
	case 1:
		return strconv.Itoa(r.Intn(100000))
	case 2:
		return fmt.Sprintf("127.0.0.%d:%d", r.Intn(256), r.Intn(65536))
	}
	return word(r, alnum+"ABC_./-", 1+r.Intn(12))
}

func genSettings(r *rand.Rand) *settings {
	s := &settings{level: logrus.InfoLevel}
	eol := "\n"
	if r.Intn(8) == 0 {
		eol = "\r\n"
		s.style += "crlf "
	}
	var blocks []string
	comment := func() string {
		if r.Intn(6) == 0 {
			return " # " + []string{"comment", "port: 1", "conn_ttl: 3"}[r.Intn(3)]
		}
		return ""
	}
	if r.Intn(8) > 0 {
		s.host = []string{"127.0.0.1", "0.0.0.0", "localhost", "", "gate.example.org", "[::1]", anyText(r)}[r.Intn(7)]
		blocks = append(blocks, "host: "+scalar(r, s.host, false)+comment())
		s.style += "host "
	}
	if r.Intn(8) > 0 {
		s.port = strconv.Itoa(r.Intn(65536))
		if r.Intn(8) == 0 {
			s.port = []string{"http", "", "06000", "0"}[r.Intn(4)]
		}
		t := scalar(r, s.port, false)
		if s.port == "06000" {
			t = `"06000"`
		}
		blocks = append(blocks, "port: "+t+comment())
		s.style += "port "
	}
	if r.Intn(8) > 0 {
		s.ttl = int64(r.Intn(100))
		switch r.Intn(8) {
		case 0:
			s.ttl = int64(r.Intn(9_000_000_00))
		case 1:
			s.ttl = []int64{0, 1, 59, 60, 61, 3599, 3600, 86400, 2147483, 2147484, 2147483647, 4294967, 4294968, 4294967296, 9000000000}[r.Intn(15)]
		}
		blocks = append(blocks, fmt.Sprintf("conn_ttl: %d%s", s.ttl, comment()))
		s.style += "ttl "
	}
	if r.Intn(8) > 0 {
		known := map[string]logrus.Level{"DEBUG": logrus.DebugLevel, "INFO": logrus.InfoLevel, "WARN": logrus.WarnLevel, "ERROR": logrus.ErrorLevel}
		l := []string{"DEBUG", "INFO", "WARN", "ERROR"}[r.Intn(4)]
		s.level = known[l]
		if r.Intn(5) == 0 {
			l = []string{"TRACE", "FATAL", "VERBOSE", "", "7", "WARNINGS", "D", "none"}[r.Intn(8)]
			s.level = logrus.InfoLevel
		}
		blocks = append(blocks, "log_level: "+scalar(r, l, false)+comment())
		s.style += "level " + l + " "
	}
	s.store = map[string]map[string]string{}
	switch k := r.Intn(8); {
	case k == 0: // absent
	case k == 1:
		blocks = append(blocks, []string{"storage:", "storage: {}", "storage: ~", "storage: null"}[r.Intn(4)])
		s.style += "nothing stored "
	default:
		n := 1 + r.Intn(4)
		lines := []string{"storage:" + comment()}
		flow := r.Intn(4) == 0
		ind := strings.Repeat(" ", 1+r.Intn(4))
		for ; n > 0; n-- {
			name := Kinds[r.Intn(len(Kinds))]
			if r.Intn(4) == 0 {
				name = word(r, alnum, 3) + "_" + word(r, alnum, 3)
			}
			if s.store[name] != nil {
				continue
			}
			p := map[string]string{}
			var kv []string
			for k := r.Intn(7); k > 0; k-- {
				key := []string{"host", "port", "user", "password", "db", "server", "servers", "topic", "queue", "exchange", "key", "max_recons", word(r, alnum, 5) + "_x"}[r.Intn(13)]
				if _, dup := p[key]; dup {
					continue
				}
				v := anyText(r)
				p[key] = v
				kv = append(kv, key+": "+scalar(r, v, flow))
			}
			s.store[name] = p
			if flow || len(kv) == 0 {
				lines = append(lines, ind+name+": {"+strings.Join(kv, ", ")+"}")
			} else {
				lines = append(lines, ind+name+":")
				for _, x := range kv {
					lines = append(lines, ind+ind+x+comment())
				}
			}
		}
		blocks = append(blocks, strings.Join(lines, "\n"))
		s.style += fmt.Sprint("stores ", len(s.store), flow)
	}
	r.Shuffle(len(blocks), func(i, j int) { blocks[i], blocks[j] = blocks[j], blocks[i] })
	if r.Intn(4) == 0 {
		blocks = append([]string{"---"}, blocks...)
	}
	if r.Intn(4) == 0 {
		blocks = append([]string{"# configuration", ""}, blocks...)
	}
	s.text = strings.ReplaceAll(strings.Join(blocks, "\n")+"\n", "\n", eol)
	return s
}

// C01 - the configuration takes effect as written.
func C01(r *h.Run) {
	r.Rule = "one evaluation per file loaded or program run; distinct: the file; nontrivial unless it is empty"
	dir, err := os.MkdirTemp(r.OutDir, "config")
	if err != nil {
		r.Inconclusive("%v", err)
		return
	}
	r.Parallel("files", r.Scale(20, 400), 6, func(i int, rng *rand.Rand) {
		f := filepath.Join(dir, fmt.Sprint("c", i, ".yaml"))
		for k := 0; k < 250; k++ {
			s := genSettings(rng)
			if err := os.WriteFile(f, []byte(s.text), 0o600); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			var c config.Settings
			o := call(time.Minute, func() (err error) { c, err = config.New(f); return })
			rep := map[string]any{"file": s.text}
			if !judge(r, "config.New", o, rep) {
				return
			}
			if o.err != nil {
				r.Violate("load", "a good file is refused: "+o.err.Error(), rep)
				return
			}
			check := func(what string, got, want any) {
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.Violate(what, fmt.Sprintf("%s is %v, written is %v", what, got, want), rep)
				}
			}
			check("listen address", c.GetListenAddress(), s.host+":"+s.port)
			check("connection TTL", int64(c.GetEmptyConnTTL()), s.ttl*1e9)
			check("log level", c.GetLogLevel(), s.level)
			check("number of storages", len(c.Store), len(s.store))
			for n, p := range s.store {
				got, ok := c.Store[n]
				if !ok {
					r.Violate("storages", "storage "+n+" is missing", rep)
				}
				check("number of parameters of "+n, len(got), len(p))
				for k, v := range p {
					if g, ok := got[k]; !ok || g != v {
						r.Violate("parameters", fmt.Sprintf("parameter %s of %s is %q, written is %q", k, n, g, v), rep)
					}
				}
			}
			r.EvalBytes([]byte(s.text), s.style != "")
			r.Count("files loaded", 1)
			if i == 0 && k < 3 {
				r.Sample(rep)
			}
			if r.Violated() {
				return
			}
		}
	})
	badFiles(r, dir)
	sampleFile(r)
	programs(r, dir)
}

func badFiles(r *h.Run, dir string) {
	refused := func(what, path, text string) {
		o := call(time.Minute, func() error { _, err := config.New(path); return err })
		rep := map[string]any{"file": text, "path": path}
		if !judge(r, "config.New", o, rep) {
			return
		}
		if o.err == nil {
			r.Violate("malformed", what+" is accepted", rep)
		}
		r.Eval("bad " + what + text)
		r.Count("files refused", 1)
	}
	refused("no file", filepath.Join(dir, "none.yaml"), "")
	refused("no path", "", "")
	refused("a directory", dir, "")
	f := filepath.Join(dir, "bad.yaml")
	good := "host: a\nport: 1\nconn_ttl: 5\n"
	for _, t := range []string{
		"host: \"a\nport: 1\n", "host: 'a\nport: 1\n", "\thost: a\n", "host a\nport: 1\n", "host: [a\nport: 1\n", "{host: a\n", "host: a: b\n",
		"host: a\n port: 1\n", "host: %x\n", "host: @x\n", "host: *x\n", "x\n", "[1,2]\n", "- host: a\n", "host: [a]\n", "host: {a: b}\n", "port:\n  - 1\n",
		"conn_ttl: ten\n", "conn_ttl: \"10s\"\n", "conn_ttl: 10s\n", "conn_ttl: 1.5\n", "conn_ttl: [1]\n", "conn_ttl: 99999999999999999999\n",
		"log_level: [DEBUG]\n", "storage: redis\n", "storage: [redis]\n", "storage:\n  redis: x\n", "storage:\n  redis: [x]\n", "storage:\n  redis:\n    db: [1]\n",
		"storage:\n  redis:\n    db: {a: b}\n", "\x00\n", "host: \xff\xfe\n", "\x80\x81\n",
	} {
		for _, x := range []string{t, good + t, t + good} {
			if strings.HasPrefix(t, "x\n") && x != t {
				continue // that would be another document
			}
			if err := os.WriteFile(f, []byte(x), 0o600); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			// only what the YAML library itself cannot read into such a structure
			var probe struct {
				Host, Port, Log_level string
				Conn_ttl              int
				Storage               map[string]map[string]string
			}
			if yaml.Unmarshal([]byte(x), &probe) == nil {
				continue
			}
			refused("a malformed file", f, x)
		}
	}
}

// sampleFile uses the shipped configuration, also with its commented storages.
func sampleFile(r *h.Run) {
	for _, path := range []string{"/repo/configs/receiver.yaml"} {
		raw, err := os.ReadFile(path)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		rep := map[string]any{"file": string(raw)}
		var keys map[string]any
		if err := yaml.Unmarshal(raw, &keys); err != nil {
			r.Violate("sample", "the shipped configuration is not YAML: "+err.Error(), rep)
			return
		}
		c, err := config.New(path)
		if err != nil {
			r.Violate("sample", "the shipped configuration does not load: "+err.Error(), rep)
			return
		}
		for k, v := range keys {
			got := any(nil)
			switch k {
			case "host":
				got = c.Host
			case "port":
				got = c.Port
			case "conn_ttl":
				got = int64(c.GetEmptyConnTTL() / time.Second)
			case "log_level":
				got = strings.ToUpper(c.GetLogLevel().String())
				if got == "WARNING" {
					got = "WARN"
				}
			case "storage":
				continue
			default:
				r.Violate("sample", "key "+k+" of the shipped configuration has no effect", rep)
				continue
			}
			if fmt.Sprint(got) != fmt.Sprint(v) {
				r.Violate("sample", fmt.Sprintf("%s is %v, the shipped configuration says %v", k, got, v), rep)
			}
		}
		// the commented storages, one by one, as a user would enable them
		text := regexp.MustCompile(`(?m)^#`).ReplaceAllString(string(raw), "")
		f := filepath.Join(r.OutDir, "sample.yaml")
		os.WriteFile(f, []byte(text), 0o600)
		all, err := config.New(f)
		if err != nil {
			r.Violate("sample", "the shipped configuration does not load with its storages enabled: "+err.Error(), map[string]any{"file": text})
			return
		}
		var names []string
		for name, cfg := range all.Store {
			names = append(names, name)
			rep := map[string]any{"storage": name, "configuration": cfg}
			if kinds[name] == nil {
				r.Violate("sample", "unknown storage "+name+" in the shipped configuration", rep)
				continue
			}
			b := &Broker{Kind: name, User: cfg["user"], Pass: cfg["password"], DB: cfg["database"]}
			if err := b.Start(); err != nil {
				r.Inconclusive("%v", err)
				return
			}
			// only the address is another one
			host, port, _ := net.SplitHostPort(b.Addr)
			want := ""
			moved := map[string]string{}
			for k, v := range cfg {
				switch k {
				case "host":
					v = host
				case "port":
					v = port
				case "server":
					v = b.Addr
				case "servers":
					v = regexp.MustCompile(`localhost:\d+`).ReplaceAllString(v, b.Addr)
				case "queue", "topic", "table":
					want = v
				case "exchange":
					want = v + "|"
				}
				moved[k] = v
			}
			repo := storage.NewRepository()
			o := call(time.Minute, func() error { return repo.LoadStorages(map[string]map[string]string{name: moved}) })
			if !judge(r, "LoadStorages", o, rep) {
				return
			}
			if o.err != nil {
				r.Violate("sample", "storage "+name+" of the shipped configuration cannot be used: "+o.err.Error(), rep)
				b.Down()
				continue
			}
			m := &note{"record"}
			if o := call(time.Minute, func() error { return repo.Save(m) }); judge(r, "Save", o, rep) && o.err != nil {
				r.Violate("sample", "storage "+name+" of the shipped configuration cannot save: "+o.err.Error(), rep)
			}
			eventually(10*time.Second, func() bool { return b.Len() > 0 })
			if l := b.Msgs(); len(l) != 1 || l[0].Body != "record" || l[0].Dest != want {
				r.Violate("sample", fmt.Sprintf("storage %s of the shipped configuration delivers to %+v, written is %q", name, l, want), rep)
			}
			b.Down()
			r.Eval("sample " + name)
			r.Count("sample storages used", 1)
		}
	}
}

var levelLine = regexp.MustCompile(`level=(\w+)`)

// programs runs the receiver with configurations.
func programs(r *h.Run, dir string) {
	rank := map[string]int{"error": 0, "warning": 1, "info": 2, "debug": 3, "trace": 4, "fatal": -1, "panic": -1}
	levels := []string{"DEBUG", "INFO", "WARN", "ERROR", "", "LOUD"}
	r.Parallel("programs", r.Scale(18, 120), 8, func(i int, rng *rand.Rand) {
		if r.Violated() {
			return
		}
		l := levels[i%len(levels)]
		ttl := 1 + i/len(levels)%3
		conf := fmt.Sprintf("host: %%HOST\nport: %%PORT\nconn_ttl: %d\n", ttl)
		want := 2
		if l != "" {
			conf += "log_level: " + l + "\n"
			if l != "LOUD" {
				want = map[string]int{"DEBUG": 3, "INFO": 2, "WARN": 1, "ERROR": 0}[l]
			}
		}
		rep := map[string]any{"file": conf}
		p, addr, err := srv.Receiver(r, false, conf)
		if err != nil {
			r.Violate("program", "the receiver does not run with this configuration: "+err.Error(), rep)
			return
		}
		defer p.Kill()
		// something for every level, and a silent peer
		g := srv.NewGen(rng)
		pk := g.Data().Wire
		bad := append([]byte(nil), pk...)
		bad[len(bad)-1] ^= 0x55
		for _, b := range [][]byte{pk, bad, []byte("GET / HTTP/1.0\r\n\r\n")} {
			c, err := net.Dial("tcp", addr)
			if err != nil {
				time.Sleep(200 * time.Millisecond)
				rep["output"], rep["exited"] = p.Output(), fmt.Sprint(p.Exited(), p.Err)
				r.Violate("program", "the receiver does not accept: "+err.Error(), rep)
				return
			}
			c.Write(b)
			c.SetReadDeadline(time.Now().Add(300 * time.Millisecond))
			io.ReadAll(c)
			c.Close()
		}
		over := srv.Oversleep()
		c, err := net.Dial("tcp", addr)
		if err != nil {
			r.Violate("program", "the receiver does not accept: "+err.Error(), rep)
			return
		}
		defer c.Close()
		t := time.Now()
		c.SetReadDeadline(t.Add(time.Duration(ttl)*time.Second + srv.Patience))
		_, err = io.ReadAll(c)
		d := time.Since(t)
		var ne net.Error
		switch slack := time.Duration(srv.Oversleep()-over) + 900*time.Millisecond; {
		case errors.As(err, &ne) && ne.Timeout():
			r.Violate("TTL", fmt.Sprintf("a silent connection is kept for more than %v with conn_ttl %d", d, ttl), rep)
		case d < time.Duration(ttl)*time.Second-20*time.Millisecond:
			r.Violate("TTL", fmt.Sprintf("a silent connection is closed after %v with conn_ttl %d", d, ttl), rep)
		case d > time.Duration(ttl)*time.Second+slack && d < time.Duration(ttl)*time.Second+slack+5*time.Second:
			r.Count("late closes", 1) // the exact limit is the business of S09
		case d > time.Duration(ttl)*time.Second+slack:
			r.Violate("TTL", fmt.Sprintf("a silent connection is closed only after %v with conn_ttl %d", d, ttl), rep)
		}
		out := p.Output()
		seen := map[string]int{}
		for _, line := range strings.Split(out, "\n") {
			if strings.Contains(line, "loc_states_count") {
				continue // a printed record, whatever the level
			}
			for _, m := range levelLine.FindAllStringSubmatch(line, -1) {
				seen[m[1]]++
			}
		}
		top := -2
		for name := range seen {
			if k, ok := rank[name]; ok && k > top {
				top = k
			}
		}
		rep["output"] = out
		if top > want {
			r.Violate("log level", fmt.Sprintf("log level %q lets through %v", l, seen), rep)
		}
		if top < want {
			r.Violate("log level", fmt.Sprintf("log level %q shows only %v of a connection, a good and a bad packet and a foreign protocol", l, seen), rep)
		}
		r.Eval(fmt.Sprint("program ", l, ttl))
		r.Count("programs configured", 1)
	})
	// the program refuses what it cannot load
	os.WriteFile(filepath.Join(dir, "broken.yaml"), []byte("host: [\n"), 0o600)
	one, addr, err := srv.Receiver(r, false, "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 30\n")
	if err != nil {
		r.Violate("program", "the receiver does not run: "+err.Error(), nil)
		return
	}
	defer one.Kill()
	host, port, _ := net.SplitHostPort(addr)
	refusals := [][]string{}
	for k, hp := range [][2]string{{host, port}, {"", port}, {"0.0.0.0", port}, {"203.0.113.77", "0"}, {host, "65536"}, {host, "-1"}, {host, "egts-no-such-service"}, {"::zz", "6000"}} {
		f := filepath.Join(dir, fmt.Sprintf("taken%d.yaml", k))
		os.WriteFile(f, []byte(fmt.Sprintf("host: %q\nport: %q\nconn_ttl: 30\nlog_level: %s\n", hp[0], hp[1], levels[k%4])), 0o600)
		refusals = append(refusals, []string{"-c", f})
	}
	g := srv.NewGen(r.Rng("taken"))
	serves := func(when string) bool {
		c, err := srv.Dial(addr)
		if err != nil {
			r.Violate("program", "the receiver does not accept "+when+": "+err.Error(), map[string]any{"output": one.Output()})
			return false
		}
		defer c.Close()
		it := g.Sized(80)
		c.Write(it.Wire)
		if _, _, err := c.Next(srv.Patience); err != nil {
			r.Violate("program", "the receiver does not answer "+when+": "+err.Error(), map[string]any{"output": one.Output()})
			return false
		}
		return true
	}
	if !serves("alone") {
		return
	}
	defer func() {
		if !r.Violated() {
			serves("after others tried to take its address")
		}
	}()
	for _, args := range append(refusals, [][]string{{}, {"-c", ""}, {"-c", filepath.Join(dir, "none.yaml")}, {"-c", dir}, {"-c", filepath.Join(dir, "broken.yaml")}}...) {
		cmd := exec.Command(srv.Binary("receiver", false), args...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		done := make(chan error, 1)
		var out []byte
		go func() {
			var err error
			out, err = cmd.CombinedOutput()
			done <- err
		}()
		rep := map[string]any{"arguments": args}
		select {
		case err := <-done:
			rep["output"] = string(out)
			if err == nil {
				r.Violate("program", fmt.Sprintf("the receiver ends with success with the arguments %q", args), rep)
			} else if strings.Contains(string(out), "goroutine ") {
				r.Violate("program", fmt.Sprintf("the receiver panics with the arguments %q", args), rep)
			}
		case <-time.After(srv.Patience):
			cmd.Process.Kill()
			r.Violate("program", fmt.Sprintf("the receiver runs with the arguments %q", args), rep)
		}
		r.Eval(fmt.Sprint("program ", args))
		r.Count("programs refused", 1)
	}
}
