package sto

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"math"
	"strings"
)

// A small MessagePack decoder, enough for requests.
type unpacker struct {
	s *session
	b []byte
}

func (u *unpacker) take(n int) []byte {
	if n > len(u.b) {
		u.s.fail("msgpack: %d bytes wanted, %d left", n, len(u.b))
	}
	p := u.b[:n]
	u.b = u.b[n:]
	return p
}

func (u *unpacker) num(n int) int {
	v := 0
	for _, c := range u.take(n) {
		v = v<<8 | int(c)
	}
	return v
}

func (u *unpacker) value() any {
	t := u.num(1)
	str := func(n int) any { return string(u.take(n)) }
	arr := func(n int) any {
		l := []any{}
		for ; n > 0; n-- {
			l = append(l, u.value())
		}
		return l
	}
	mp := func(n int) any {
		m := map[any]any{}
		for ; n > 0; n-- {
			k := u.value()
			m[k] = u.value()
		}
		return m
	}
	switch {
	case t < 0x80:
		return t
	case t < 0x90:
		return mp(t & 15)
	case t < 0xa0:
		return arr(t & 15)
	case t < 0xc0:
		return str(t & 31)
	case t >= 0xe0:
		return t - 256
	}
	switch t {
	case 0xc0:
		return nil
	case 0xc2, 0xc3:
		return t == 0xc3
	case 0xc4, 0xd9:
		return str(u.num(1))
	case 0xc5, 0xda:
		return str(u.num(2))
	case 0xc6, 0xdb:
		return str(u.num(4))
	case 0xca:
		return float64(math.Float32frombits(uint32(u.num(4))))
	case 0xcb:
		return math.Float64frombits(uint64(u.num(8)))
	case 0xcc, 0xcd, 0xce, 0xcf:
		return u.num(1 << (t - 0xcc))
	case 0xd0:
		return int(int8(u.num(1)))
	case 0xd1:
		return int(int16(u.num(2)))
	case 0xd2:
		return int(int32(u.num(4)))
	case 0xd3:
		return u.num(8)
	case 0xdc:
		return arr(u.num(2))
	case 0xdd:
		return arr(u.num(4))
	case 0xde:
		return mp(u.num(2))
	case 0xdf:
		return mp(u.num(4))
	}
	u.s.fail("msgpack: type %#x", t)
	return nil
}

func mpStr(s string) []byte {
	return append(append([]byte{0xdb}, be32(len(s))...), s...)
}

func mpBin(s string) []byte {
	return append(append([]byte{0xc6}, be32(len(s))...), s...)
}

func tarantoolReply(sync, code int, body []byte) []byte {
	p := append([]byte{0x82, 0x00, 0xce}, be32(code)...)
	p = append(append(p, 0x01, 0xcf, 0, 0, 0, 0), be32(sync)...)
	p = append(p, body...)
	return append(append([]byte{0xce}, be32(len(p))...), p...)
}

func tarantoolError(sync, code int, text string) []byte {
	return tarantoolReply(sync, 0x8000|code, append([]byte{0x81, 0x31}, mpStr(text)...))
}

func at(l []any, i int) any {
	if i < len(l) {
		return l[i]
	}
	return nil
}

// tarantoolSession speaks IPROTO: greeting, chap-sha1, select, call, ping.
func tarantoolSession(s *session) {
	salt := []byte("0123456789abcdefghijklmnopqrstuv")
	g := fmt.Sprintf("%-63s\n%-63s\n", "Tarantool 1.10.2 (Binary) 00000000-0000-0000-0000-000000000000", base64.StdEncoding.EncodeToString(salt))
	s.say(s.act("greeting"), []byte(g), []byte("go away\n"), nil)
	empty := []byte{0x81, 0x30, 0x90}
	authed := s.b.User == ""
	id := 0
	for {
		if h := s.full(1); h[0] != 0xce {
			s.fail("bad packet prefix %#x", h[0])
		}
		u := &unpacker{s, s.full(u32(s.full(4)))}
		head, _ := u.value().(map[any]any)
		var body map[any]any
		if len(u.b) > 0 {
			body, _ = u.value().(map[any]any)
		}
		sync, _ := head[1].(int)
		switch code := head[0]; code {
		case 7:
			act := s.act("auth")
			user, _ := body[0x23].(string)
			tup, _ := body[0x21].([]any)
			scr := ""
			if len(tup) == 2 {
				scr, _ = tup[1].(string)
			}
			s1 := sha1.Sum([]byte(s.b.Pass))
			s2 := sha1.Sum(s1[:])
			s3 := sha1.Sum(append(append([]byte{}, salt[:20]...), s2[:]...))
			for i := range s1 {
				s1[i] ^= s3[i]
			}
			if s.b.User != "" && user != s.b.User {
				s.write(tarantoolError(sync, 45, "User '"+user+"' is not found"))
				continue
			}
			if s.b.User != "" && !bytes.Equal([]byte(scr), s1[:]) {
				s.write(tarantoolError(sync, 47, "Incorrect password supplied for user"))
				continue
			}
			if s.say(act, tarantoolReply(sync, 0, []byte{0x80}), tarantoolError(sync, 45, "User is not found"), nil) {
				authed = true
				s.via = user
			}
		case 64:
			s.write(tarantoolReply(sync, 0, []byte{0x80}))
		case 1:
			s.say(s.act("schema"), tarantoolReply(sync, 0, empty), tarantoolError(sync, 42, "Read access is denied"), nil)
		case 6, 10:
			fn, _ := body[0x22].(string)
			args, _ := body[0x21].([]any)
			name, ok := strings.CutPrefix(fn, "queue.tube.")
			name, ok2 := strings.CutSuffix(name, ":put")
			if !ok || !ok2 || len(args) < 1 {
				s.write(tarantoolError(sync, 33, "Procedure '"+fn+"' is not defined"))
				continue
			}
			data, _ := args[0].(string)
			m := s.got(name, data)
			if o, ok := at(args, 1).(map[any]any); ok {
				for _, k := range []string{"ttl", "delay"} {
					if v := o[k]; v != nil && v != 0 && v != 0.0 {
						m.Terms += fmt.Sprint(k, " ", v, " ")
					}
				}
			}
			act := s.act("put")
			if !authed {
				s.write(tarantoolError(sync, 42, "Execute access is denied"))
				continue
			}
			id++
			b := append([]byte{0x81, 0x30, 0x91, 0x93, 0xcf, 0, 0, 0, 0}, be32(id)...)
			b = append(append(b, 0xa1, 'r'), mpBin(data)...)
			s.say(act, tarantoolReply(sync, 0, b), tarantoolError(sync, 32, "queue: refused"), m)
		default:
			s.write(tarantoolError(sync, 48, "Unknown request type"))
		}
	}
}
