package ref

import (
	"bufio"
	_ "embed"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

// The EGTS+ schema, read from the published .proto file (a copy of
// docs/egts_sr_egtsplus_data.proto), not from the generated Go code.

//go:embed plus.proto
var plusProto string

type PlusField struct {
	Name   string
	Num    int
	Label  string // required, optional, repeated
	Type   string // uint32, fixed32, sint32, sfixed32, bool, bytes, float, enum or a message name
	Msg    *PlusMsg
	IsEnum bool
}

type PlusMsg struct {
	Name   string
	Fields []PlusField // ascending by Num
}

var plusMsgs = map[string]*PlusMsg{}
var plusEnum []int32

// PlusReasons are the names of the values of the enumeration reason.
var PlusReasons = map[int32]string{}

func init() {
	sc := bufio.NewScanner(strings.NewReader(plusProto))
	reF := regexp.MustCompile(`^(required|optional|repeated)\s+([\w.]+)\s+(\w+)\s*=\s*(\d+);`)
	reE := regexp.MustCompile(`^(\w+)\s*=\s*(\d+);`)
	reM := regexp.MustCompile(`^message\s+(\w+)`)
	var cur *PlusMsg
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if m := reM.FindStringSubmatch(l); m != nil {
			cur = &PlusMsg{Name: m[1]}
			plusMsgs[m[1]] = cur
		} else if m := reF.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[4])
			t := strings.TrimPrefix(m[2], "nv.")
			cur.Fields = append(cur.Fields, PlusField{Name: m[3], Num: n, Label: m[1], Type: t, IsEnum: t == "reason"})
		} else if m := reE.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[2])
			plusEnum = append(plusEnum, int32(n))
			PlusReasons[int32(n)] = m[1]
		}
	}
	for _, m := range plusMsgs {
		for i := 1; i < len(m.Fields); i++ { // insertion sort by number
			for j := i; j > 0 && m.Fields[j].Num < m.Fields[j-1].Num; j-- {
				m.Fields[j], m.Fields[j-1] = m.Fields[j-1], m.Fields[j]
			}
		}
		for i := range m.Fields {
			if sub, ok := plusMsgs[m.Fields[i].Type]; ok {
				m.Fields[i].Msg = sub
			}
		}
	}
	if len(plusMsgs) != 19 || len(plusEnum) != 39 || len(plusMsgs["storage_record"].Fields) != 22 {
		panic("ref: plus.proto not understood")
	}
}

// PlusVal is one message; Vals[i] holds the values of field i (none, one or many).
type PlusVal struct {
	M    *PlusMsg
	Vals [][]any // uint32, int32, bool, []byte, float32, *PlusVal
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func (v *PlusVal) Wire() []byte {
	var b []byte
	for i, f := range v.M.Fields {
		for _, x := range v.Vals[i] {
			switch {
			case f.IsEnum:
				b = varint(varint(b, uint64(f.Num<<3)), uint64(x.(int32)))
			case f.Msg != nil:
				w := x.(*PlusVal).Wire()
				b = append(varint(varint(b, uint64(f.Num<<3|2)), uint64(len(w))), w...)
			case f.Type == "uint32":
				b = varint(varint(b, uint64(f.Num<<3)), uint64(x.(uint32)))
			case f.Type == "sint32":
				n := x.(int32)
				b = varint(varint(b, uint64(f.Num<<3)), uint64(uint32(n<<1)^uint32(n>>31)))
			case f.Type == "bool":
				b = varint(varint(b, uint64(f.Num<<3)), uint64(b2(x.(bool))))
			case f.Type == "fixed32":
				b = le32(varint(b, uint64(f.Num<<3|5)), x.(uint32))
			case f.Type == "sfixed32":
				b = le32(varint(b, uint64(f.Num<<3|5)), uint32(x.(int32)))
			case f.Type == "float":
				b = le32(varint(b, uint64(f.Num<<3|5)), math.Float32bits(x.(float32)))
			case f.Type == "bytes":
				b = append(varint(varint(b, uint64(f.Num<<3|2)), uint64(len(x.([]byte)))), x.([]byte)...)
			default:
				panic("ref: type " + f.Type)
			}
		}
	}
	return b
}

// RandPlus makes a random EGTS+ storage record.
func RandPlus(r *rand.Rand, rich bool) *PlusVal { return randPlus(r, plusMsgs["storage_record"], rich) }

func randPlus(r *rand.Rand, m *PlusMsg, rich bool) *PlusVal {
	v := &PlusVal{M: m, Vals: make([][]any, len(m.Fields))}
	for i, f := range m.Fields {
		n := 0
		switch f.Label {
		case "required":
			n = 1
		case "optional":
			if rich || r.Intn(3) > 0 {
				n = 1
			}
		case "repeated":
			if rich {
				n = 1 + r.Intn(3)
			} else if r.Intn(4) == 0 {
				n = 1 + r.Intn(2)
			}
		}
		for ; n > 0; n-- {
			var x any
			switch {
			case f.IsEnum:
				x = plusEnum[r.Intn(len(plusEnum))]
			case f.Msg != nil:
				x = randPlus(r, f.Msg, rich)
			case f.Type == "uint32", f.Type == "fixed32":
				x = uint32(Bound(r, 32))
			case f.Type == "sint32", f.Type == "sfixed32":
				x = int32(uint32(Bound(r, 32)))
			case f.Type == "bool":
				x = r.Intn(2) == 1
			case f.Type == "bytes":
				b := make([]byte, r.Intn(20))
				r.Read(b)
				x = b
			case f.Type == "float":
				x = float32(r.NormFloat64() * 1000)
			}
			v.Vals[i] = append(v.Vals[i], x)
		}
	}
	return v
}

// PlusRequired tells whether all required top level fields are among those present.
func PlusRequired(have map[int]bool) bool {
	for _, f := range plusMsgs["storage_record"].Fields {
		if f.Label == "required" && !have[f.Num] {
			return false
		}
	}
	return true
}
