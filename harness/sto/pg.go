package sto

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"regexp"
	"strings"
)

func pgMsg(t byte, parts ...any) []byte {
	var b []byte
	for _, p := range parts {
		switch x := p.(type) {
		case byte:
			b = append(b, x)
		case string:
			b = append(append(b, x...), 0)
		case []byte:
			b = append(b, x...)
		}
	}
	return append(append([]byte{t}, be32(len(b)+4)...), b...)
}

func pgErr(code, text string) []byte {
	return pgMsg('E', byte('S'), "ERROR", byte('C'), code, byte('M'), text, byte(0))
}

var pgInsert = regexp.MustCompile(`(?is)^\s*INSERT\s+INTO\s+(\S+?)\s*\(\s*"?point"?\s*\)\s*VALUES\s*\(\s*\$1\s*(?:::\s*jsonb?)?\s*\)\s*;?\s*$`)

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

// pgSession speaks the PostgreSQL 3.0 protocol: simple and extended queries.
func pgSession(s *session) {
	var st map[string]string
	for st == nil {
		b := s.full(u32(s.full(4)) - 4)
		switch u32(b[:4]) {
		case 80877103: // SSLRequest
			s.write([]byte("N"))
		case 80877102: // CancelRequest
			panic(hangup{})
		case 196608:
			st = map[string]string{}
			f := bytes.Split(b[4:], []byte{0})
			for i := 0; i+1 < len(f); i += 2 {
				st[string(f[i])] = string(f[i+1])
			}
		default:
			s.fail("bad start %x", b[:4])
		}
	}
	act := s.act("startup")
	if act == "error" || act == "fatal" {
		s.write(pgErr("53300", "too many connections"))
		panic(hangup{})
	}
	if act == "half" {
		s.write(pgMsg('R', be32(0))[:6])
		panic(hangup{})
	}
	denied := func(code, f string, a ...any) {
		s.write(pgErr(code, fmt.Sprintf(f, a...)))
		panic(hangup{})
	}
	if s.b.Pass != "" {
		salt := "\x01\x7f\x80z"
		s.write(pgMsg('R', be32(5), []byte(salt)))
		if h := s.full(5); h[0] != 'p' {
			s.fail("no password message but %q", h[0])
		} else {
			got := strings.TrimRight(string(s.full(u32(h[1:])-4)), "\x00")
			if got != "md5"+md5hex(md5hex(s.b.Pass+s.b.User)+salt) {
				denied("28P01", "password authentication failed for user %q", st["user"])
			}
		}
		act = s.act("password")
	}
	if s.b.User != "" && st["user"] != s.b.User {
		denied("28000", "role %q does not exist", st["user"])
	}
	if s.b.DB != "" && st["database"] != s.b.DB {
		denied("3D000", "database %q does not exist", st["database"])
	}
	s.via = st["user"] + "@" + st["database"]
	ok := pgMsg('R', be32(0))
	ok = append(ok, pgMsg('S', "server_version", "13.4")...)
	ok = append(ok, pgMsg('S', "TimeZone", "UTC")...)
	ok = append(ok, pgMsg('K', be32(1), be32(2))...)
	tx := byte('I')
	ready := func() []byte { return pgMsg('Z', tx) }
	s.say(act, append(ok, ready()...), pgErr("28000", "no"), nil)

	stmts := map[string]string{}
	var pending []*Msg // executed, not committed yet
	var out []byte
	failed := false // until the next Sync
	confirm := func() {
		s.b.mu.Lock()
		for _, m := range pending {
			m.confirm()
		}
		s.b.mu.Unlock()
		pending = nil
	}
	var bound *Msg
	// step answers one message of the extended protocol
	step := func(act string, good []byte) {
		switch act {
		case "error":
			out = append(out, pgErr("22000", "refused")...)
			failed, bound = true, nil
		case "fatal":
			s.write(append(out, pgErr("57P01", "terminating connection")...))
			panic(hangup{})
		case "half":
			s.write(append(out, good[:len(good)/2]...))
			panic(hangup{})
		default:
			out = append(out, good...)
			if act == "after" {
				s.write(out)
				panic(hangup{})
			}
		}
	}
	for {
		h := s.full(5)
		b := s.full(u32(h[1:]) - 4)
		cstr := func() string {
			i := bytes.IndexByte(b, 0)
			if i < 0 {
				s.fail("string without end")
			}
			v := string(b[:i])
			b = b[i+1:]
			return v
		}
		if failed && h[0] != 'S' && h[0] != 'X' {
			continue
		}
		switch h[0] {
		case 'X':
			panic(hangup{})
		case 'Q':
			q := strings.ToUpper(strings.TrimRight(strings.TrimSpace(cstr()), "; "))
			switch {
			case strings.HasPrefix(q, "SELECT") || q == "":
				act := s.act("ping")
				r := append(pgMsg('T', be16(1), "?column?", be32(0), be16(0), be32(25), be16(65535), be32(-1), be16(0)), pgMsg('D', be16(1), be32(2), []byte("ok"))...)
				r = append(r, pgMsg('C', "SELECT 1")...)
				if q == "" {
					r = pgMsg('I')
				}
				s.say(act, append(r, ready()...), append(pgErr("57014", "refused"), ready()...), nil)
			case strings.HasPrefix(q, "BEGIN") || strings.HasPrefix(q, "START"):
				tx = 'T'
				s.say(s.act("begin"), append(pgMsg('C', "BEGIN"), ready()...), append(pgErr("57014", "refused"), ready()...), nil)
			case strings.HasPrefix(q, "COMMIT"):
				act := s.act("commit")
				tx = 'I'
				if act == "" || act == "slow" || act == "after" {
					confirm()
				}
				s.say(act, append(pgMsg('C', "COMMIT"), ready()...), append(pgErr("40001", "refused"), ready()...), nil)
			case strings.HasPrefix(q, "ROLLBACK"):
				tx, pending = 'I', nil
				s.write(append(pgMsg('C', "ROLLBACK"), ready()...))
			default:
				s.fail("unexpected query %q", q)
			}
		case 'P':
			name := cstr()
			if _, ok := stmts[name]; !ok && name != "" {
				s.hold("prepared statements", 1)
			}
			stmts[name] = cstr()
			step(s.act("parse"), pgMsg('1'))
		case 'D':
			what := b[0]
			b = b[1:]
			q := stmts[cstr()]
			if what == 'S' {
				n := strings.Count(q, "$")
				p := be16(n)
				for ; n > 0; n-- {
					p = append(p, be32(3802)...)
				}
				out = append(out, pgMsg('t', p)...)
			}
			out = append(out, pgMsg('n')...)
		case 'B':
			cstr() // portal
			q := stmts[cstr()]
			nf := int(b[0])<<8 | int(b[1])
			b = b[2+2*nf:]
			np := int(b[0])<<8 | int(b[1])
			b = b[2:]
			m := pgInsert.FindStringSubmatch(q)
			if m == nil || np != 1 {
				s.fail("unexpected statement %q with %d parameters", q, np)
			}
			k := u32(b[:4])
			if k > len(b)-4 {
				s.fail("parameter of %d bytes", k)
			}
			bound = s.got(strings.ReplaceAll(m[1], `"`, ""), string(b[4:4+k]))
			step(s.act("bind"), pgMsg('2'))
		case 'E':
			if bound == nil {
				s.fail("execute without bind")
			}
			pending = append(pending, bound)
			bound = nil
			step(s.act("execute"), pgMsg('C', "INSERT 0 1"))
			if failed {
				pending = pending[:len(pending)-1]
			}
		case 'C':
			what := b[0]
			b = b[1:]
			if name := cstr(); what == 'S' {
				if _, ok := stmts[name]; ok && name != "" {
					s.hold("prepared statements", -1)
				}
				delete(stmts, name)
			}
			out = append(out, pgMsg('3')...)
		case 'H':
			s.write(out)
			out = nil
		case 'S':
			act := ""
			if len(pending) > 0 && tx == 'I' && !failed {
				act = s.act("sync")
			}
			switch act {
			case "error": // a deferred constraint, say
				out = append(append(out, pgErr("23505", "refused")...), ready()...)
				pending = nil
				s.write(out)
			case "fatal":
				s.write(append(out, pgErr("57P01", "terminating connection")...))
				panic(hangup{})
			case "half":
				s.write(out[:len(out)-len(out)/3])
				panic(hangup{})
			default:
				if tx == 'I' && !failed {
					confirm()
				}
				s.write(append(out, ready()...))
				if act == "after" {
					panic(hangup{})
				}
			}
			out, failed = nil, false
		default:
			s.fail("unexpected message %q", h[0])
		}
	}
}
