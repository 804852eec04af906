package srv

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ElectroUnion/egts-gate/cli/receiver/server"
	"github.com/ElectroUnion/egts-gate/cli/receiver/storage"

	"verif/harness/h"
)

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// refused tells whether connections to addr are refused.
func refused(addr string) error {
	c, err := net.DialTimeout("tcp", addr, Patience)
	if err == nil {
		c.Close()
		return errors.New("connection accepted")
	}
	if !errors.Is(err, syscall.ECONNREFUSED) {
		return err
	}
	return nil
}

// S10 - the server stops when told to and can be started again.
func S10(r *h.Run) {
	r.Rule = "one evaluation per Stop; distinct: way of stopping, number of callers, traffic, delay since the start; all nontrivial"
	repo := func() (*storage.Repository, *Recorder) {
		x, rec := storage.NewRepository(), &Recorder{}
		x.AddStore(rec)
		return x, rec
	}
	ways := []string{"once", "twice in a row", "by several goroutines", "before Run and again later", "while clients connect", "while packets are processed", "at the moment the port opens", "from the moment Run is called"}
	r.Parallel("stop", r.Scale(420, 6000), 16, func(i int, rng *rand.Rand) {
		if r.Violated() && i > 32 {
			return
		}
		way := i % len(ways)
		rounds := 1 + i/len(ways)%3
		addr := FreeAddr()
		rp, _ := repo()
		x := server.New(addr, 60*time.Second, rp)
		srv := &x
		desc := map[string]any{"way": ways[way], "scenario": i}
		for round := 0; round < rounds; round++ {
			desc["round"] = round
			if round > 0 && i%2 == 0 { // a new Server on the same address; otherwise the same one again
				x2 := server.New(addr, 60*time.Second, rp)
				srv = &x2
			}
			if way == 3 {
				if err := srv.Stop(); err != nil && round == 0 {
					r.Violate("Stop before Run", err.Error(), desc)
					return
				}
			}
			done := make(chan struct{})
			f0 := fatals.Load()
			go func() {
				defer close(done)
				srv.Run()
			}()
			if way == 7 { // early calls may come before there is anything to stop
				until := time.After(Patience)
			again:
				for k := 0; ; k++ {
					if k > 0 || rng.Intn(2) == 0 {
						time.Sleep(time.Duration(rng.Intn(150)) * time.Microsecond)
					}
					srv.Stop()
					select {
					case <-done:
						break again
					case <-until:
						trouble(r, fmt.Errorf("Run has not returned after %d calls of Stop", k+1), "Run does not return after Stop", desc)
						return
					default:
					}
				}
				if fatals.Load() != f0 {
					r.Violate("Run fails when started again", "log.Fatal", desc)
					return
				}
				if err := refused(addr); err != nil {
					r.Violate("connections after Stop", err.Error(), desc)
					return
				}
				r.Eval(fmt.Sprint(ways[way], i, round))
				r.Count("stops: "+ways[way], 1)
				continue
			}
			// wait for it to serve
			for t := time.Now(); ; {
				c, err := net.Dial("tcp", addr)
				if err == nil {
					c.Close()
					break
				}
				select {
				case <-done:
					r.Violate("Run returns without being stopped", fmt.Sprintf("%s round %d (log.Fatal: %v)", ways[way], round, fatals.Load() != f0), desc)
					return
				default:
				}
				if time.Since(t) > Patience {
					trouble(r, errTimeout, "server does not start listening", desc)
					return
				}
				if way != 6 {
					time.Sleep(200 * time.Microsecond)
				}
			}
			var wg sync.WaitGroup
			quit := make(chan struct{})
			var served atomic.Int64
			switch way {
			case 4:
				for k := 0; k < 4; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							select {
							case <-quit:
								return
							default:
							}
							if c, err := net.Dial("tcp", addr); err == nil {
								c.Close()
								served.Add(1)
							}
						}
					}()
				}
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			case 5:
				for k := 0; k < 3; k++ {
					g := NewGen(rand.New(rand.NewSource(rng.Int63())))
					wg.Add(1)
					go func() {
						defer wg.Done()
						c, err := net.Dial("tcp", addr)
						if err != nil {
							return
						}
						cl := &Client{c: c}
						defer cl.Close()
						for {
							select {
							case <-quit:
								return
							default:
							}
							if cl.Write(g.Sized(100).Wire) != nil {
								return
							}
							if _, _, err := cl.Next(2 * time.Second); err != nil {
								return
							}
							served.Add(1)
						}
					}()
				}
				time.Sleep(time.Duration(rng.Intn(4000)) * time.Microsecond)
			case 6:
			default:
				time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			}
			var first atomic.Int64
			stop := func() {
				if err := srv.Stop(); err == nil {
					first.Add(1)
				}
			}
			switch way {
			case 1:
				stop()
				srv.Stop()
			case 2:
				var sg sync.WaitGroup
				for k := 0; k < 4; k++ {
					sg.Add(1)
					go func() {
						defer sg.Done()
						stop()
					}()
				}
				sg.Wait()
			default:
				stop()
			}
			if first.Load() == 0 {
				r.Violate("Stop of a running server fails", ways[way], desc)
			}
			select {
			case <-done:
			case <-time.After(Patience):
				close(quit)
				trouble(r, fmt.Errorf("Run has not returned %s after Stop", Patience), "Run does not return after Stop", desc)
				return
			}
			close(quit)
			wg.Wait()
			if err := refused(addr); err != nil {
				r.Violate("connections after Stop", err.Error(), desc)
				return
			}
			l, err := net.Listen("tcp", addr)
			if err != nil {
				r.Violate("address still bound after Stop", err.Error(), desc)
				return
			}
			l.Close()
			if way == 1 { // once more, with Run gone
				srv.Stop()
			}
			r.Eval(fmt.Sprint(ways[way], i, round))
			r.Count("stops: "+ways[way], 1)
			r.Count("requests served around the stops", served.Load())
			if round > 0 {
				r.Count("restarts on the same address", 1)
			}
		}
		if i < 3 {
			r.Sample(desc)
		}
	})
	if r.Violated() {
		return
	}
	idle(r)
}

// idle looks at the processor time and the goroutines of this process when
// nothing is left to do after Stop.
func idle(r *h.Run) {
	for try := 0; ; try++ {
		before := runtime.NumGoroutine()
		var ss []*Server
		for k := 0; k < 5; k++ {
			s, err := Start(60*time.Second, &Recorder{})
			if err != nil {
				r.Violate("server does not start", err.Error(), nil)
				return
			}
			g := NewGen(r.Rng("idle", k))
			c, err := Dial(s.Addr)
			if err != nil {
				trouble(r, err, "no connection", nil)
				return
			}
			for j := 0; j < 20; j++ {
				c.Write(g.Sized(100).Wire)
				if _, _, err := c.Next(Patience); err != nil {
					trouble(r, err, "no reply", nil)
					return
				}
			}
			defer c.Close()
			ss = append(ss, s)
		}
		for _, s := range ss {
			s.Stop()
			select {
			case <-s.done:
			case <-time.After(Patience):
				trouble(r, fmt.Errorf("Run has not returned %s after Stop", Patience), "Run does not return after Stop", nil)
				return
			}
		}
		time.Sleep(100 * time.Millisecond)
		runtime.GC()
		c0, t0 := cpu(), time.Now()
		time.Sleep(800 * time.Millisecond)
		used, wall := cpu()-c0, time.Since(t0)
		after := runtime.NumGoroutine()
		r.Sample(map[string]any{"idle_cpu_after_stop": used.String(), "of": wall.String(), "goroutines_before": before, "after_with_5_clients_still_connected": after})
		// the watcher of this process wakes 50 times a second: far below a tenth
		if used > wall/3 {
			if try < 2 {
				continue
			}
			r.Violate("CPU burnt after Stop", fmt.Sprintf("%s in %s with nothing to do", used, wall), nil)
			return
		}
		if after > before+20 {
			r.Violate("goroutines left after Stop", fmt.Sprintf("%d before, %d after stopping 5 servers", before, after), nil)
			return
		}
		r.Eval("idle")
		r.Count("idle measurements", 1)
		return
	}
}
