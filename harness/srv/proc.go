package srv

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/harness/h"
)

// Proc is a program under test.
type Proc struct {
	Cmd  *exec.Cmd
	Dir  string
	mu   sync.Mutex
	out  bytes.Buffer // stdout and stderr
	Done chan struct{}
	Err  error
}

func (p *Proc) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

// Output is what the program has written so far.
func (p *Proc) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// Binary is the path of a program check.py has built.
func Binary(name string, race bool) string {
	if race {
		name += "-race"
	}
	return filepath.Join(os.Getenv("VERIF_BUILD"), name)
}

// StartProc runs a program; it dies with this process.
func StartProc(dir string, env []string, name string, args ...string) (*Proc, error) {
	return startTo(nil, dir, env, name, args...)
}

func startTo(out *os.File, dir string, env []string, name string, args ...string) (*Proc, error) {
	p := &Proc{Dir: dir, Done: make(chan struct{})}
	p.Cmd = exec.Command(name, args...)
	p.Cmd.Dir = dir
	p.Cmd.Env = append(os.Environ(), env...)
	p.Cmd.Stdout, p.Cmd.Stderr = p, p
	if out != nil {
		p.Cmd.Stdout, p.Cmd.Stderr = out, out
	}
	if err := p.Cmd.Start(); err != nil {
		return nil, err
	}
	go func() {
		p.Err = p.Cmd.Wait()
		close(p.Done)
	}()
	return p, nil
}

// Kill ends the program.
func (p *Proc) Kill() {
	p.Cmd.Process.Signal(syscall.SIGKILL)
	<-p.Done
}

func (p *Proc) Exited() bool {
	select {
	case <-p.Done:
		return true
	default:
		return false
	}
}

// Fds counts open file descriptors.
func (p *Proc) Fds() int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(d)
}

// CPU is the CPU time the program has used.
func (p *Proc) CPU() time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.Cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	var u, s int64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &s)
	return time.Duration(u+s) * 10 * time.Millisecond
}

// RSS in bytes.
func (p *Proc) RSS() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", p.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	var a, n int64
	fmt.Sscan(string(b), &a, &n)
	return n * int64(os.Getpagesize())
}

// Receiver starts the receiver program with the given configuration (%ADDR
// host and port are filled in) and waits until it listens.
func Receiver(r *h.Run, race bool, conf string, env ...string) (*Proc, string, error) {
	return receiverTo(nil, r, race, conf, env...)
}

// Again starts a receiver that has ended as it was started before, at the same address.
func Again(old *Proc, addr string) (*Proc, error) {
	p, err := startTo(nil, old.Dir, old.Cmd.Env[len(os.Environ()):], old.Cmd.Path, old.Cmd.Args[1:]...)
	if err != nil {
		return nil, err
	}
	for t := time.Now(); ; time.Sleep(5 * time.Millisecond) {
		c, err := net.Dial("tcp", addr)
		if err == nil {
			c.Close()
			return p, nil
		}
		if p.Exited() {
			return p, fmt.Errorf("the receiver ends at once: %v: %s", p.Err, tail(p.Output()))
		}
		if time.Since(t) > 2*Patience {
			p.Kill()
			return p, errors.New("the receiver does not listen on " + addr)
		}
	}
}

// receiverTo is Receiver with the output going to a file.
func receiverTo(out *os.File, r *h.Run, race bool, conf string, env ...string) (*Proc, string, error) {
	return startReceiver(out, r, Binary("receiver", race), conf, env)
}

func startReceiver(out *os.File, r *h.Run, prog, conf string, env []string) (*Proc, string, error) {
	dir, err := os.MkdirTemp(r.OutDir, "receiver")
	if err != nil {
		return nil, "", err
	}
	for try := 0; ; try++ {
		addr := FreeAddr()
		host, port, _ := net.SplitHostPort(addr)
		c := strings.NewReplacer("%HOST", host, "%PORT", port).Replace(conf)
		f := filepath.Join(dir, "receiver.yaml")
		if err := os.WriteFile(f, []byte(c), 0o600); err != nil {
			return nil, "", err
		}
		p, err := startTo(out, dir, env, prog, "-c", f)
		if err != nil {
			return nil, "", err
		}
		for t := time.Now(); ; {
			c, err := net.Dial("tcp", addr)
			if err == nil {
				c.Close()
				return p, addr, nil
			}
			if p.Exited() {
				return p, addr, fmt.Errorf("the receiver ends at once: %v: %s", p.Err, tail(p.Output()))
			}
			if time.Since(t) > 2*Patience {
				p.Kill()
				return p, addr, errors.New("the receiver does not listen on " + addr)
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
}

func tail(s string) string {
	if len(s) > 3000 {
		return "..." + s[len(s)-3000:]
	}
	return s
}
