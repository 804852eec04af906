package srv

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/harness/h"
)

// outOfDescriptors lets hostile peers take all the descriptors a receiver may have:
// peers it serves already must not notice, it must neither end nor spin, and once
// the hostile peers have left new ones must be served.
func outOfDescriptors(r *h.Run) {
	r.Parallel("descriptors", r.Scale(3, 24), 3, func(i int, rng *rand.Rand) {
		f, err := os.CreateTemp(r.OutDir, "output")
		if err != nil {
			r.Inconclusive("temporary file: %v", err)
			return
		}
		defer f.Close()
		limit := 24 + rng.Intn(40)
		level := []string{"ERROR", "INFO", "DEBUG"}[i%3]
		rep := map[string]any{"descriptors": limit, "log_level": level}
		sh := filepath.Join(r.OutDir, fmt.Sprintf("limited%d.sh", i))
		os.WriteFile(sh, []byte(fmt.Sprintf("#!/bin/sh\nulimit -n %d\nexec %s \"$@\"\n", limit, Binary("receiver", true))), 0o700)
		p, addr, err := programTo(f, r, sh, "host: \"%HOST\"\nport: \"%PORT\"\nconn_ttl: 60\nlog_level: \""+level+"\"\nstorage:\n")
		if err != nil {
			r.Violate("receiver does not start", err.Error(), rep)
			return
		}
		defer p.Kill()
		defer func() {
			if p.Exited() {
				b, _ := os.ReadFile(f.Name())
				r.Violate("receiver ends when it is out of descriptors", fmt.Sprint(p.Err), map[string]any{"descriptors": limit, "output": tail(string(b))})
			}
		}()
		g := NewGen(rng)
		serve := func(c *Client, what string) bool {
			items := []*Item{g.Sized(60), g.Data()}
			got, err := Exchange(c, Segment(rng, items, 0), 0, func(x []Reply) bool { return responses(x) >= 2 })
			if err != nil {
				if !p.Exited() {
					trouble(r, err, what, caseOf(items, 0, got, rep))
				}
				return false
			}
			if at, key, msg := judgeAcks(items, got, true, false); at >= 0 {
				r.Violate(what+": "+key, msg, caseOf(items, at, got, rep))
				return false
			}
			return true
		}
		var good []*Client
		for k := 0; k < 3; k++ {
			c, err := Dial(addr)
			if err != nil {
				trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "no connection to a receiver with few descriptors", rep)
				return
			}
			defer c.Close()
			if !serve(c, "no service by a receiver with few descriptors") {
				return
			}
			good = append(good, c)
		}
		var bad []*Client
		for k := 0; k < limit+20; k++ {
			if c, err := Dial(addr); err == nil {
				c.Write([]byte{1, 0, 0, 11}[:k%5])
				bad = append(bad, c)
			}
		}
		for t := time.Now(); p.Fds() < limit && time.Since(t) < 5*time.Second; time.Sleep(10 * time.Millisecond) {
		}
		if n := p.Fds(); n < limit-1 {
			r.Count("descriptors not exhausted", 1)
		} else {
			r.Count("receivers out of descriptors", 1)
		}
		size := func() int64 {
			st, err := f.Stat()
			if err != nil {
				return 0
			}
			return st.Size()
		}
		t0, c0, s0 := time.Now(), p.CPU(), size()
		time.Sleep(2 * time.Second)
		el, c1, s1 := time.Since(t0), p.CPU(), size()
		r.Eval(fmt.Sprint("descriptors", limit, level, i))
		if spent := c1 - c0; spent > el/4 || s1-s0 > 1<<20 {
			r.Violate("receiver spins while it is out of descriptors", fmt.Sprintf("%s of CPU time and %d bytes of log in %s with %d idle connections", spent, s1-s0, el, len(bad)), rep)
		}
		for k := 0; k < 30; k++ {
			if !serve(good[k%3], "peer not served while there are no descriptors for new ones") {
				return
			}
			r.Count("exchanges while out of descriptors", 1)
		}
		for k, c := range bad {
			if k%2 == 0 {
				c.Abort()
			} else {
				c.Close()
			}
		}
		// connections that are closed half wait for the end of the TTL only if they did not send a full header
		for k := 0; k < 3; k++ {
			c, err := Dial(addr)
			if err != nil {
				trouble(r, fmt.Errorf("%w: %v", errTimeout, err), "no new connection after the descriptors were free again", rep)
				return
			}
			ok := serve(c, "new peer not served after the descriptors were free again")
			c.Close()
			if !ok {
				return
			}
			r.Count("new peers served after the exhaustion", 1)
		}
	})
}

// programTo is receiverTo for another program than the plain receiver.
func programTo(out *os.File, r *h.Run, prog, conf string) (*Proc, string, error) {
	return startReceiver(out, r, prog, strings.TrimSpace(conf)+"\n", nil)
}
