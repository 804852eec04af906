package sto

import (
	"fmt"
	"strconv"
	"strings"
)

// redisSession speaks RESP2.
func redisSession(s *session) {
	authed := s.b.Pass == ""
	db := "0"
	for {
		l := s.line()
		if !strings.HasPrefix(l, "*") {
			s.fail("not a command array: %q", l)
		}
		n, err := strconv.Atoi(l[1:])
		if err != nil || n < 1 || n > 100 {
			s.fail("bad command array: %q", l)
		}
		var a []string
		for i := 0; i < n; i++ {
			l := s.line()
			k, err := strconv.Atoi(strings.TrimPrefix(l, "$"))
			if err != nil || l[0] != '$' {
				s.fail("bad argument: %q", l)
			}
			a = append(a, string(s.full(k)))
			if s.line() != "" {
				s.fail("argument without end")
			}
		}
		switch c := strings.ToUpper(a[0]); c {
		case "AUTH":
			act := s.act("auth")
			if s.b.Pass == "" || a[len(a)-1] != s.b.Pass {
				s.write([]byte("-WRONGPASS invalid password\r\n"))
				continue
			}
			if s.say(act, []byte("+OK\r\n"), []byte("-ERR auth\r\n"), nil) {
				authed = true
			}
		case "SELECT":
			act := s.act("select")
			if !authed {
				s.write([]byte("-NOAUTH Authentication required.\r\n"))
				continue
			}
			if k, err := strconv.Atoi(a[1]); err != nil || k < 0 || k > 15 {
				s.write([]byte("-ERR DB index is out of range\r\n"))
				continue
			}
			if s.say(act, []byte("+OK\r\n"), []byte("-ERR invalid DB index\r\n"), nil) {
				db = a[1]
			}
		case "PUBLISH":
			if len(a) != 3 {
				s.fail("PUBLISH with %d arguments", len(a)-1)
			}
			s.via = "db " + db
			m := s.got(a[1], a[2])
			act := s.act("publish")
			if !authed {
				s.write([]byte("-NOAUTH Authentication required.\r\n"))
				continue
			}
			s.say(act, []byte(":1\r\n"), []byte("-ERR something is wrong\r\n"), m)
		case "PING":
			s.write([]byte("+PONG\r\n"))
		default:
			s.write([]byte(fmt.Sprintf("-ERR unknown command '%s'\r\n", c)))
		}
	}
}
