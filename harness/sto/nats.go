package sto

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// natsSession speaks the NATS client protocol.
func natsSession(s *session) {
	max := s.b.Max
	if max == 0 {
		max = 1 << 20
	}
	info := fmt.Sprintf(`INFO {"server_id":"VERIF","server_name":"verif","version":"2.7.2","proto":1,"go":"go1.17","host":"127.0.0.1","port":4222,"headers":true,"max_payload":%d,"client_id":1,"auth_required":%v}`+"\r\n", max, s.b.User != "")
	s.say(s.act("info"), []byte(info), []byte("-ERR 'maximum connections exceeded'\r\n"), nil)
	authed := false
	for {
		l := s.line()
		op, rest, _ := strings.Cut(l, " ")
		switch strings.ToUpper(op) {
		case "CONNECT":
			var c struct {
				User string `json:"user"`
				Pass string `json:"pass"`
				Lang string `json:"lang"`
			}
			if err := json.Unmarshal([]byte(rest), &c); err != nil {
				s.fail("CONNECT: %v", err)
			}
			if s.b.User != "" && (c.User != s.b.User || c.Pass != s.b.Pass) {
				s.write([]byte("-ERR 'Authorization Violation'\r\n"))
				panic(hangup{})
			}
			s.via = c.User
			authed = true
		case "PING":
			s.say(s.act("ping"), []byte("PONG\r\n"), []byte("-ERR 'Authorization Violation'\r\n"), nil)
		case "PONG":
		case "PUB", "HPUB":
			f := strings.Fields(rest)
			if len(f) < 2 {
				s.fail("bad command %q", l)
			}
			n, err := strconv.Atoi(f[len(f)-1])
			if err != nil {
				s.fail("bad command %q", l)
			}
			b := s.full(n)
			if s.line() != "" {
				s.fail("payload without end")
			}
			if strings.ToUpper(op) == "HPUB" {
				h, _ := strconv.Atoi(f[len(f)-2])
				b = b[h:]
			}
			if !authed {
				s.fail("PUB before CONNECT")
			}
			m := s.got(f[0], string(b))
			s.say(s.act("publish"), nil, []byte("-ERR 'Permissions Violation for Publish'\r\n"), m)
		case "SUB":
			s.hold("subscriptions", 1)
		case "UNSUB":
			s.hold("subscriptions", -1)
		default:
			s.fail("unknown command %q", l)
		}
	}
}
