package sto

import (
	"regexp"
	"strings"
)

var nsqTopic = regexp.MustCompile(`^[.a-zA-Z0-9_-]{1,64}(#ephemeral)?$`)

func nsqFrame(t int, data string) []byte {
	return append(append(be32(4+len(data)), be32(t)...), data...)
}

// nsqSession speaks the nsqd TCP protocol as far as a producer needs it.
func nsqSession(s *session) {
	if v := s.full(4); string(v) != "  V2" {
		s.fail("bad protocol magic %q", v)
	}
	for {
		l := s.line()
		f := strings.Fields(l)
		if len(f) == 0 {
			s.fail("empty command")
		}
		switch f[0] {
		case "IDENTIFY":
			s.full(u32(s.full(4)))
			act := s.act("identify")
			s.say(act, nsqFrame(0, `{"max_rdy_count":2500,"version":"1.2.1","max_msg_timeout":900000,"msg_timeout":60000,"tls_v1":false,"deflate":false,"snappy":false,"auth_required":false}`), nsqFrame(1, "E_BAD_BODY IDENTIFY"), nil)
		case "PUB":
			if len(f) != 2 {
				s.fail("bad command %q", l)
			}
			b := s.full(u32(s.full(4)))
			if !nsqTopic.MatchString(f[1]) {
				s.write(nsqFrame(1, "E_BAD_TOPIC PUB topic name is not valid"))
				panic(hangup{})
			}
			m := s.got(f[1], string(b))
			act := s.act("publish")
			s.say(act, nsqFrame(0, "OK"), nsqFrame(1, "E_PUB_FAILED PUB failed"), m)
		case "MPUB":
			b := s.full(u32(s.full(4)))
			var ms []*Msg
			for n, p := u32(b[:4]), b[4:]; n > 0; n-- {
				k := u32(p[:4])
				ms = append(ms, s.got(f[1], string(p[4:4+k])))
				p = p[4+k:]
			}
			act := s.act("publish")
			if act == "" || act == "slow" || act == "after" {
				s.b.mu.Lock()
				for _, m := range ms {
					m.confirm()
				}
				s.b.mu.Unlock()
			}
			s.say(act, nsqFrame(0, "OK"), nsqFrame(1, "E_MPUB_FAILED MPUB failed"), nil)
		case "NOP":
		case "CLS":
			s.write(nsqFrame(0, "CLOSE_WAIT"))
			panic(hangup{})
		default:
			s.fail("unknown command %q", l)
		}
	}
}
