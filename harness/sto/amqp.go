package sto

import (
	"bytes"
	"encoding/binary"
	"strings"
	"time"
)

func shortStr(s string) []byte { return append([]byte{byte(len(s))}, s...) }
func longStr(s string) []byte  { return append(be32(len(s)), s...) }

func amqpFrame(t byte, ch int, p []byte) []byte {
	return append(append(append([]byte{t}, be16(ch)...), longStr(string(p))...), 0xce)
}

func amqpMethod(ch, class, method int, args ...[]byte) []byte {
	return amqpFrame(1, ch, append(append(be16(class), be16(method)...), bytes.Join(args, nil)...))
}

// amqpSession speaks AMQP 0-9-1 as far as a publisher needs it.
func amqpSession(s *session) {
	if h := s.full(8); string(h) != "AMQP\x00\x00\x09\x01" {
		s.fail("bad protocol header %q", h)
	}
	closeConn := func(code int, text string) []byte {
		return amqpMethod(0, 10, 50, be16(code), shortStr(text), be16(0), be16(0))
	}
	stop := make(chan bool)
	defer close(stop)
	go func() { // heartbeats, which the client expects
		for {
			select {
			case <-stop:
				return
			case <-time.After(5 * time.Second):
				s.c.Write(amqpFrame(8, 0, nil))
			}
		}
	}()
	s.say(s.act("start"), amqpMethod(0, 10, 10, []byte{0, 9}, longStr("\x07productS\x00\x00\x00\x05verif"), longStr("PLAIN AMQPLAIN"), longStr("en_US")), []byte("AMQP\x00\x00\x09\x01"), nil)
	type pub struct {
		ex, key string
		size    int
		body    []byte
		header  bool
		terms   string
	}
	pubs := map[int]*pub{}
	open := map[int]bool{}
	vhost := ""
	finish := func(ch int) {
		p := pubs[ch]
		delete(pubs, ch)
		m := s.got(p.ex+"|"+p.key, string(p.body))
		m.Via, m.Terms = s.via+"@"+vhost, p.terms
		a := s.act("publish")
		if a == "error" {
			s.hold("channels", -1)
			open[ch] = false
		}
		s.say(a, nil, amqpMethod(ch, 20, 40, be16(404), shortStr("NOT_FOUND - no exchange"), be16(60), be16(40)), m)
	}
	for {
		h := s.full(7)
		t, ch, n := h[0], int(binary.BigEndian.Uint16(h[1:])), u32(h[3:])
		if n > 131072-8 {
			s.fail("frame of %d bytes", n)
		}
		b := s.full(n)
		if s.full(1)[0] != 0xce {
			s.fail("frame without end")
		}
		need := func(k int) []byte {
			if k > len(b) {
				s.fail("short frame")
			}
			p := b[:k]
			b = b[k:]
			return p
		}
		short := func() string { return string(need(int(need(1)[0]))) }
		switch t {
		case 8:
			s.write(amqpFrame(8, 0, nil))
		case 1:
			switch m := u32(need(4)); m {
			case 10<<16 | 11: // start-ok
				need(u32(need(4)))
				mech := short()
				resp := string(need(u32(need(4))))
				f := strings.Split(resp, "\x00")
				if mech != "PLAIN" || len(f) != 3 {
					s.fail("authentication %q %q", mech, resp)
				}
				act := s.act("tune")
				if s.b.User != "" && (f[1] != s.b.User || f[2] != s.b.Pass) {
					s.write(closeConn(403, "ACCESS_REFUSED"))
					panic(hangup{})
				}
				s.via = f[1]
				s.say(act, amqpMethod(0, 10, 30, be16(2047), be32(131072), be16(0)), closeConn(403, "ACCESS_REFUSED"), nil)
			case 10<<16 | 31: // tune-ok
			case 10<<16 | 40: // open
				vhost = short()
				s.say(s.act("open"), amqpMethod(0, 10, 41, shortStr("")), closeConn(530, "NOT_ALLOWED - vhost not found"), nil)
			case 10<<16 | 50: // close
				s.write(amqpMethod(0, 10, 51))
				panic(hangup{})
			case 10<<16 | 51, 20<<16 | 41: // close-ok
			case 20<<16 | 10: // channel open
				if s.say(s.act("channel"), amqpMethod(ch, 20, 11, longStr("")), closeConn(504, "CHANNEL_ERROR"), nil) {
					open[ch] = true
					s.hold("channels", 1)
				}
			case 20<<16 | 40:
				if open[ch] {
					s.hold("channels", -1)
				}
				open[ch] = false
				s.write(amqpMethod(ch, 20, 41))
			case 60<<16 | 40: // publish
				if !open[ch] {
					continue
				}
				need(2)
				p := &pub{ex: short()}
				p.key = short()
				if need(1)[0]&2 != 0 { // immediate, which no longer exists
					s.write(closeConn(540, "NOT_IMPLEMENTED - immediate=true"))
					panic(hangup{})
				}
				pubs[ch] = p
			default:
				s.fail("unexpected method %d.%d", m>>16, m&0xffff)
			}
		case 2:
			p := pubs[ch]
			if p == nil {
				if open[ch] {
					s.fail("header without publish")
				}
				continue
			}
			need(4)
			p.size, p.header = int(binary.BigEndian.Uint64(need(8))), true
			// properties before the expiration: content type and encoding,
			// headers, delivery mode, priority, correlation id, reply-to
			flags := int(binary.BigEndian.Uint16(need(2)))
			for bit := 15; bit > 8; bit-- {
				switch {
				case flags>>bit&1 == 0:
				case bit == 13:
					need(u32(need(4)))
				case bit == 12 || bit == 11:
					need(1)
				default:
					short()
				}
			}
			if flags>>8&1 == 1 {
				p.terms = "expiration " + short()
			}
			if p.size == 0 {
				finish(ch)
			}
		case 3:
			p := pubs[ch]
			if p == nil {
				if open[ch] {
					s.fail("body without publish")
				}
				continue
			}
			if !p.header {
				s.fail("body without header")
			}
			p.body = append(p.body, b...)
			if len(p.body) > p.size {
				s.fail("body of %d bytes, %d announced", len(p.body), p.size)
			}
			if len(p.body) == p.size {
				finish(ch)
			}
		default:
			s.fail("frame type %d", t)
		}
	}
}
