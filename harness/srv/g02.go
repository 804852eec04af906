package srv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/h"
	"verif/harness/ref"
)

// storeless configurations; %CLOSED is a port nobody listens on.
var storeless = []struct{ name, yaml string }{
	{"absent", ""},
	{"null", "storage:\n"},
	{"empty", "storage: {}\n"},
	{"unknown", "storage:\n  mysql:\n    host: localhost\n"},
	{"redis without parameters", "storage:\n  redis:\n"},
	{"redis with a bad database", "storage:\n  redis:\n    server: 127.0.0.1:%CLOSED\n    queue: q\n    db: first\n"},
	{"postgresql unreachable", "storage:\n  postgresql:\n    host: 127.0.0.1\n    port: \"%CLOSED\"\n    user: u\n    password: p\n    database: d\n    table: t\n    sslmode: disable\n"},
	{"rabbitmq unreachable", "storage:\n  rabbitmq:\n    host: 127.0.0.1\n    port: \"%CLOSED\"\n    user: u\n    password: p\n    exchange: e\n    key: k\n"},
	{"nats unreachable", "storage:\n  nats:\n    servers: nats://127.0.0.1:%CLOSED\n    topic: t\n"},
	{"tarantool unreachable", "storage:\n  tarantool_queue:\n    host: 127.0.0.1\n    port: \"%CLOSED\"\n    user: u\n    password: p\n    max_recons: \"1\"\n    timeout: \"1\"\n    reconnect: \"1\"\n    queue: q\n"},
	{"nsq without parameters", "storage:\n  unheard_of:\n  nsq:\n"},
}

var logLevels = []string{"log_level: INFO\n", "log_level: DEBUG\n", "", "log_level: ERROR\n", "log_level: WARN\n", "log_level: nonsense\n"}

var packetField = regexp.MustCompile(`(?m)(?:^|\s)packet=("(?:[^"\\\n]|\\.)*")`)

// printed finds the records in the output of the program.
func printed(out string) (sv []Saved, bad string) {
	for _, m := range packetField.FindAllStringSubmatch(out, -1) {
		raw, err := strconv.Unquote(m[1])
		if err != nil {
			return sv, "unreadable packet field " + m[1]
		}
		if !strings.HasPrefix(raw, "{") {
			continue // a debug message about a frame
		}
		if !json.Valid([]byte(raw)) {
			return sv, "printed packet is not JSON: " + raw
		}
		s, err := parseSaved([]byte(raw))
		if err != nil {
			return sv, err.Error() + ": " + raw
		}
		if s.KeyError != "" {
			return sv, "keys of a printed packet:" + s.KeyError + ": " + raw
		}
		sv = append(sv, s)
	}
	if n := strings.Count(out, `\"loc_states_count\"`); n != len(sv) {
		return sv, fmt.Sprintf("%d records printed but %d are readable", n, len(sv))
	}
	return sv, ""
}

// confirmedExports is how many records must have been printed, given the replies seen.
func confirmedExports(items []*Item, got []Reply) (n int, bad string) {
	k := 0
	for _, it := range items {
		if it.Kind == "response" {
			continue
		}
		for k < len(got) && got[k].P != nil && got[k].P.PT != ref.PtResponse {
			k++
		}
		if k >= len(got) {
			return n, ""
		}
		g := got[k]
		k++
		if g.P == nil {
			return n, fmt.Sprintf("invalid reply: %v", g.Err)
		}
		if g.P.RPID != it.PID {
			return n, fmt.Sprintf("packet %d is sent, packet %d is acknowledged", it.PID, g.P.RPID)
		}
		if (g.P.Result == 0) != (it.Kind == "data") {
			return n, fmt.Sprintf("packet %d (%s %s) is answered with %d", it.PID, it.Kind, it.What, g.P.Result)
		}
		n += len(it.Exports)
	}
	return n, ""
}

// G02 - the receiver program prints every accepted record once without storage.
func G02(r *h.Run) {
	r.Rule = "one evaluation per packet sent to a receiver program without usable storage; distinct: wire bytes; nontrivial if it carries positions."
	var mu sync.Mutex
	r.Parallel("program", r.Scale(44, 330), 6, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 12 {
			return
		}
		sl := storeless[i%len(storeless)]
		lvl := logLevels[(i/len(storeless)+i)%len(logLevels)]
		_, closed, _ := strings.Cut(FreeAddr(), ":")
		conf := "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 60\n" + lvl + strings.ReplaceAll(sl.yaml, "%CLOSED", closed)
		env := map[string]any{"storage": sl.name, "log_level": lvl, "program": i}
		p, addr, err := Receiver(r, i%4 == 3, conf, "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(r.OutDir, "race"))
		if err != nil {
			if Starved(5 * time.Second) {
				r.Inconclusive("%v", err)
				return
			}
			r.Violate("does not serve", err.Error(), env)
			return
		}
		defer os.RemoveAll(p.Dir)
		n := []int{1, 5, 30, 80}[rng.Intn(4)]
		killed := i%3 == 2 // in the middle of the traffic
		type res struct {
			items []*Item
			got   []Reply
			err   error
		}
		rs := make([]res, n)
		owner := map[string]int{}
		for c := range rs {
			g := NewGen(rng)
			g.ntm = uint32(c) << 22
			g.AnyOID, g.OIDBase, g.NeedOID = false, uint32(1000+c*16), true
			items := traffic(g, c, 4+rng.Intn(24), c%3 == 0)
			if killed { // enough to be in the middle of
				for k := 0; k < 400/n+4; k++ {
					items = append(items, g.Data())
				}
			}
			if c%5 == 0 {
				items = append(items, g.Many(200), g.Bulk(65535))
			}
			items = append(items, g.Sized(60))
			rs[c].items = items
			for _, e := range expected(items) {
				for _, l := range e.Loc {
					owner[l.Dt] = c
				}
			}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for c := range rs {
			wg.Add(1)
			crng := r.Rng("G02", i, c)
			go func(c int) {
				defer wg.Done()
				<-start
				rs[c].got, rs[c].err = drive(r, addr, crng, rs[c].items, crng.Intn(4))
			}(c)
		}
		close(start)
		if killed {
			time.Sleep(time.Duration(1+rng.Intn(60)) * time.Millisecond)
			p.Kill()
		}
		wg.Wait()
		if !killed && p.Exited() {
			env["output"] = tail(p.Output())
			r.Violate("the program ends", fmt.Sprint(p.Err), env)
			return
		}
		if !killed {
			p.Kill() // right after the last acknowledgement
		}
		out := p.Output()
		sv, bad := printed(out)
		if bad != "" && !(killed && strings.Contains(bad, "are readable")) { // the last line may be cut then
			env["output"] = tail(out)
			r.Violate("output", bad, env)
			return
		}
		by := map[int][]Saved{}
		for _, s := range sv {
			if len(s.E.Loc) == 0 {
				r.Violate("record without positions printed", string(s.Raw), env)
				return
			}
			c, ok := owner[s.E.Loc[0].Dt]
			if !ok {
				r.Violate("record nobody sent", string(s.Raw), env)
				return
			}
			by[c] = append(by[c], s)
		}
		acked := 0
		for c := range rs {
			x := &rs[c]
			rep := caseOf(x.items, 0, x.got, env)
			want := expected(x.items)
			must, bad := confirmedExports(x.items, x.got)
			if bad != "" && !killed {
				r.Violate("replies of the program", bad, rep)
				return
			}
			if !killed && x.err != nil {
				trouble(r, x.err, "session with the program ends early", rep)
				return
			}
			if !killed && must != len(want) {
				r.Violate("replies of the program", fmt.Sprintf("connection %d: %d of %d records acknowledged", c, must, len(want)), rep)
				return
			}
			got := by[c]
			if len(got) < must {
				r.Violate("acknowledged but not printed", fmt.Sprintf("connection %d: %d records acknowledged, %d printed (storage %s, %s)", c, must, len(got), sl.name, lvl), rep)
				return
			}
			if len(got) > len(want) {
				r.Violate("printed more than once", fmt.Sprintf("connection %d: %d records sent, %d printed", c, len(want), len(got)), rep)
				return
			}
			for k := range got {
				if d := DiffExp(&got[k].E, &want[k]); d != "" {
					r.Violate("printed record", fmt.Sprintf("connection %d record %d: %s", c, k, d), rep)
					return
				}
			}
			for _, it := range x.items {
				r.EvalBytes(it.Wire, len(it.Exports) > 0)
			}
			acked += must
			r.Count("records printed", int64(len(got)))
			r.Count("records acknowledged", int64(must))
		}
		mu.Lock()
		defer mu.Unlock()
		r.Count("storage "+sl.name, 1)
		if killed {
			r.Count("programs killed amid traffic", 1)
			if total := len(owner); acked > 0 && len(sv) < total {
				r.Count("killed with some records acknowledged and some not", 1)
			}
		} else {
			r.Count("programs killed right after the last acknowledgement", 1)
		}
		if i < 2 {
			r.Sample(map[string]any{"config": conf, "connections": n, "printed": len(sv), "first_line": strings.SplitN(out, "\n", 2)[0]})
		}
	})
	// where nothing can be printed, nothing may be acknowledged
	r.Parallel("full", r.Scale(6, 30), 3, func(i int, rng *rand.Rand) {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer full.Close()
		p, addr, err := receiverTo(full, r, false, "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 60\nlog_level: INFO\n")
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer os.RemoveAll(p.Dir)
		defer p.Kill()
		g := NewGen(rng)
		g.NeedOID = true
		c, err := Dial(addr)
		if err != nil {
			r.Inconclusive("%v", err)
			return
		}
		defer c.Close()
		for k := 0; k < 5; k++ {
			it := g.Sized(60)
			got, err := Lockstep(c, []*Item{it}, 0, nil)
			if err != nil || len(got) != 1 || got[0].P == nil {
				r.Violate("no reply while the output is full", fmt.Sprint(err), caseOf([]*Item{it}, 0, got, nil))
				return
			}
			if _, st, err := confirmed(got[0].P); err == nil && got[0].P.Result == 0 && zeros(st) {
				r.Violate("acknowledged though the output is full", fmt.Sprintf("packet %d: %s", it.PID, got[0]), caseOf([]*Item{it}, 0, got, nil))
				return
			}
			r.Count("packets refused while the output is full", 1)
			r.EvalBytes(it.Wire, true)
		}
	})
}

func zeros(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}
