package lib

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

// L08: the JSON form of a packet shows every field under the abbreviation of the standard.
func L08(r *h.Run) {
	r.Rule = "one evaluation per packet decoded and turned into JSON, which is parsed again and compared key by key with what the reference implementation says the bytes mean; distinct by packet bytes; packets without records count as trivial"
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	r.Parallel("json", r.Scale(300, 8000), runtime.NumCPU(), func(shard int, rng *rand.Rand) {
		for k := 0; k < 50; k++ {
			i := shard*50 + k
			p := gen(rng, i)
			judgeJSON(r, p)
			if i%997 == 0 {
				r.Sample(map[string]any{"shape": typeSig(p), "wire": hexs(p.Wire())})
			}
		}
	})
	rng := r.Rng("patterns")
	for m := 0; m < 256; m++ {
		for _, v := range patterns(rng, byte(m)) {
			p := ref.RandHeader(rng)
			p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
			p.Records[0].Subs = []ref.Sub{v}
			judgeJSON(r, p)
		}
	}
}

func judgeJSON(r *h.Run, p *ref.Packet) {
	w := p.Wire()
	rep := func() any { return map[string]any{"shape": typeSig(p), "wire": hexs(w)} }
	r.Guard("json", rep, func() {
		e := egts.Package{}
		if _, err := e.Decode(w); err != nil {
			return // L04 judges the decoder
		}
		before, errEnc := e.Encode()
		js, err := e.ToBytes()
		if err != nil {
			r.Violate("no JSON form", err.Error(), rep())
			return
		}
		r.EvalBytes(w, len(p.Records) > 0)
		var got any
		d := json.NewDecoder(bytes.NewReader(js))
		d.UseNumber()
		if err := d.Decode(&got); err != nil || d.More() {
			r.Violate("JSON form is not JSON", fmt.Sprint(err), rep())
			return
		}
		if dup := dupKey(js); dup != "" {
			r.Violate("key twice in the JSON form", dup, rep())
		}
		if d := diffJSON("", got, packetJSON(p)); d != "" {
			r.Violate("JSON form: "+short(d), d, map[string]any{"shape": typeSig(p), "wire": hexs(w), "json": string(clipB(js, 3000))})
		}
		again, err := e.ToBytes()
		if err != nil || !bytes.Equal(js, again) {
			r.Violate("JSON form differs the second time", "", rep())
		}
		after, errEnc2 := e.Encode()
		if !bytes.Equal(before, after) || (errEnc == nil) != (errEnc2 == nil) {
			r.Violate("ToBytes changes the packet", "", rep())
		}
		r.Count("JSON forms compared", 1)
		for i := range p.Records {
			for _, s := range p.Records[i].Subs {
				r.Count(fmt.Sprintf("subrecord type %d", s.Type), 1)
			}
		}
	})
}

func clipB(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

// dupKey finds an object that holds a key twice.
func dupKey(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	type lvl struct {
		obj  bool
		keys map[string]bool
		key  bool // a key comes next
	}
	var st []*lvl
	for {
		t, err := d.Token()
		if err != nil {
			return ""
		}
		top := func() *lvl {
			if len(st) == 0 {
				return &lvl{}
			}
			return st[len(st)-1]
		}
		if x, ok := t.(json.Delim); ok && (x == '}' || x == ']') {
			st = st[:len(st)-1]
			top().key = true
			continue
		}
		if l := top(); l.obj && l.key {
			k := t.(string)
			if l.keys[k] {
				return k
			}
			l.keys[k] = true
			l.key = false
			continue
		}
		if x, ok := t.(json.Delim); ok {
			st = append(st, &lvl{obj: x == '{', keys: map[string]bool{}, key: true})
			continue
		}
		top().key = true
	}
}

type obj = map[string]any

func bits(v byte, n int) string { return fmt.Sprintf("%0*b", n, v) }
func num(v any) json.Number     { return json.Number(fmt.Sprint(v)) }
func flag(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// packetJSON says what the JSON form of the decoded packet must be.
func packetJSON(p *ref.Packet) any {
	w := p.Wire()
	o := obj{"PRV": num(p.PRV), "SKID": num(p.SKID), "PRF": bits(p.PRF, 2), "RTE": bits(p.RTE, 1), "ENA": bits(p.ENA, 2), "CMP": bits(p.CMP, 1), "PR": bits(p.PR, 2),
		"HL": num(p.HL()), "HE": num(p.HE), "FDL": num(0), "PID": num(p.PID), "PT": num(p.PT), "PRA": num(0), "RCA": num(0), "TTL": num(0), "HCS": num(w[p.HL()-1]), "SFRCS": num(0)}
	if p.RTE == 1 {
		o["PRA"], o["RCA"], o["TTL"] = num(p.PRA), num(p.RCA), num(p.TTL)
	}
	if n := len(w) - p.HL(); n > 0 {
		o["FDL"] = num(n - 2)
		o["SFRCS"] = num(int(w[len(w)-2]) | int(w[len(w)-1])<<8)
	}
	rs := []any{}
	for i := range p.Records {
		rs = append(rs, recordJSON(&p.Records[i]))
	}
	if p.PT == ref.PtResponse {
		b := obj{"RPID": num(p.RPID), "PR": num(p.Result), "SDR": nil}
		if len(rs) > 0 {
			b["SDR"] = rs
		}
		o["SFRD"] = b
	} else {
		o["SFRD"] = rs
	}
	return o
}

func recordJSON(x *ref.Record) any {
	o := obj{"RL": num(len(x.SubsWire())), "RN": num(x.RN), "SSOD": bits(x.SSOD, 1), "RSOD": bits(x.RSOD, 1), "GRP": bits(x.GRP, 1), "RPP": bits(x.RPP, 2),
		"TMFE": flag(x.TMFE), "EVFE": flag(x.EVFE), "OBFE": flag(x.OBFE), "OID": num(0), "EVID": num(0), "TM": num(0), "SST": num(x.SST), "RST": num(x.RST)}
	if x.OBFE {
		o["OID"] = num(x.OID)
	}
	if x.EVFE {
		o["EVID"] = num(x.EVID)
	}
	if x.TMFE {
		o["TM"] = num(x.TM)
	}
	subs := []any{}
	for _, s := range x.Subs {
		subs = append(subs, obj{"SRT": num(s.Type), "SRL": num(len(s.V.Wire())), "SRD": valueJSON(s.V)})
	}
	o["RD"] = subs
	return o
}

// degrees is compared with a tolerance.
type degrees float64

// bit7 is the direction whose bit 7 the API shares with the ninth bit (see DESIGN.md).
type bit7 byte

func valueJSON(v ref.Value) any {
	switch v := v.(type) {
	case *ref.Response:
		return obj{"CRN": num(v.CRN), "RST": num(v.RST)}
	case *ref.Result:
		return obj{"RCD": num(v.RCD)}
	case *ref.Disp:
		return obj{"DT": num(v.DT), "DID": num(v.DID), "DSCR": v.DSCR}
	case *ref.Auth:
		return obj{"UNM": v.UNM, "UPSW": v.UPSW, "SS": v.SS}
	case *ref.State:
		return obj{"ST": num(v.ST), "MPSV": num(v.MPSV), "BBV": num(v.BBV), "IBV": num(v.IBV), "NMS": bits(v.NMS, 1), "IBU": bits(v.IBU, 1), "BBU": bits(v.BBU, 1)}
	case *ref.AbsAn:
		return obj{"SensorNumber": num(v.ASN), "Value": num(v.ASV)}
	case *ref.AbsCntr:
		return obj{"CN": num(v.CN), "CNV": num(v.CNV)}
	case *ref.Liquid:
		return obj{"LLSEF": bits(v.LLSEF, 1), "LLSVU": bits(v.LLSVU, 2), "RDF": bits(v.RDF, 1), "LLSN": num(v.LLSN), "MADDR": num(v.MADDR), "LLSD": num(v.LLSD)}
	case *ref.ExtPos:
		return obj{"NSFE": bits(v.NSFE, 1), "SFE": bits(v.SFE, 1), "PFE": bits(v.PFE, 1), "HFE": bits(v.HFE, 1), "VFE": bits(v.VFE, 1),
			"VDOP": num(uint16(v.VFE) * v.VDOP), "HDOP": num(uint16(v.HFE) * v.HDOP), "PDOP": num(uint16(v.PFE) * v.PDOP), "SAT": num(v.SFE * v.SAT), "NS": num(uint16(v.NSFE) * v.NS)}
	case *ref.Pos:
		srcd := int16(0)
		if len(v.SRCD) == 2 {
			srcd = int16(uint16(v.SRCD[0]) | uint16(v.SRCD[1])<<8)
		}
		o := obj{"NTM": conv.Epoch.Add(time.Duration(v.NTM) * time.Second), "LAT": degrees(conv.Lat(v.LAT)), "LONG": degrees(conv.Lon(v.LON)),
			"ALTE": bits(v.ALTE, 1), "LOHS": bits(v.LOHS, 1), "LAHS": bits(v.LAHS, 1), "MV": bits(v.MV, 1), "BB": bits(v.BB, 1), "CS": bits(v.CS, 1), "FIX": bits(v.FIX, 1), "VLD": bits(v.VLD, 1),
			"DIRH": num(v.DIRH), "ALTS": num(v.ALTS), "SPD": num(v.SPD / 10), "DIR": num(v.DIR), "ODM": num(v.ODM), "DIN": num(v.DIN), "SRC": num(v.SRC), "ALT": num(uint32(v.ALTE) * v.ALT), "SRCD": num(srcd)}
		if v.DIRH == 1 {
			o["DIR"] = bit7(v.DIR)
		}
		return o
	case *ref.Term:
		fix := func(on byte, s string, n int) string {
			if on == 0 {
				return ""
			}
			return s + strings.Repeat("\x00", n-len(s))
		}
		o := obj{"TID": num(v.TID), "MNE": bits(v.MNE, 1), "BSE": bits(v.BSE, 1), "NIDE": bits(v.NIDE, 1), "SSRA": bits(v.SSRA, 1), "LNGCE": bits(v.LNGCE, 1), "IMSIE": bits(v.IMSIE, 1), "IMEIE": bits(v.IMEIE, 1), "HDIDE": bits(v.HDIDE, 1),
			"HDID": num(uint16(v.HDIDE) * v.HDID), "IMEI": fix(v.IMEIE, v.IMEI, 15), "IMSI": fix(v.IMSIE, v.IMSI, 16), "LNGC": fix(v.LNGCE, v.LNGC, 3), "NID": nil, "BS": num(uint16(v.BSE) * v.BS), "MSISDN": fix(v.MNE, v.MSISDN, 15)}
		if v.NIDE == 1 {
			o["NID"] = base64.StdEncoding.EncodeToString(v.NID[:])
		}
		return o
	case *ref.AdSens:
		o := obj{"DOUT": num(v.DOUT)}
		for i := 0; i < 8; i++ {
			d, a := v.DIOE>>i&1, v.ASFE>>i&1
			o[fmt.Sprintf("DIOE%d", i+1)], o[fmt.Sprintf("ASFE%d", i+1)] = bits(d, 1), bits(a, 1)
			o[fmt.Sprintf("ADIO%d", i+1)], o[fmt.Sprintf("ANS%d", i+1)] = num(d*v.ADIO[i]), num(uint32(a)*v.ANS[i])
		}
		return o
	case *ref.Counters:
		o := obj{}
		for i := 0; i < 8; i++ {
			c := v.CFE >> i & 1
			o[fmt.Sprintf("CFE%d", i+1)], o[fmt.Sprintf("CN%d", i+1)] = bits(c, 1), num(uint32(c)*v.CN[i])
		}
		return o
	case *ref.PlusVal:
		o := obj{}
		for i, f := range v.M.Fields {
			var l []any
			for _, x := range v.Vals[i] {
				switch x := x.(type) {
				case *ref.PlusVal:
					l = append(l, valueJSON(x))
				case []byte:
					l = append(l, base64.StdEncoding.EncodeToString(x))
				case bool:
					l = append(l, x)
				case float32:
					l = append(l, x)
				default:
					l = append(l, num(x))
				}
			}
			if len(l) == 0 {
				continue
			}
			if x, ok := v.Vals[i][0].([]byte); ok && len(x) == 0 && f.Label != "repeated" {
				continue // empty ones are left out
			}
			if f.Label == "repeated" {
				o[f.Name] = l
			} else {
				o[f.Name] = l[0]
			}
		}
		return o
	}
	panic(fmt.Sprintf("l08: value %T", v))
}

// diffJSON names the first difference.
func diffJSON(path string, got, want any) string {
	bad := func() string { return fmt.Sprintf("%s: got %v, want %v", path, got, want) }
	switch w := want.(type) {
	case nil:
		if got != nil {
			return bad()
		}
	case obj:
		g, ok := got.(map[string]any)
		if !ok {
			return bad()
		}
		var keys []string
		for k := range w {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			x, ok := g[k]
			if !ok {
				return path + "." + k + ": missing"
			}
			if d := diffJSON(path+"."+k, x, w[k]); d != "" {
				return d
			}
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				return path + "." + k + ": not a field"
			}
		}
	case []any:
		g, ok := got.([]any)
		if !ok && got == nil && len(w) == 0 {
			return "" // an empty list may be null
		}
		if !ok || len(g) != len(w) {
			return bad()
		}
		for i := range w {
			if d := diffJSON(fmt.Sprintf("%s[%d]", path, i), g[i], w[i]); d != "" {
				return d
			}
		}
	case string:
		// text that is not UTF-8 has no exact form in JSON
		b, _ := json.Marshal(w)
		var s string
		json.Unmarshal(b, &s)
		if got != any(s) {
			return fmt.Sprintf("%s: got %q, want %q", path, got, s)
		}
	case bool:
		if got != any(w) {
			return bad()
		}
	case json.Number:
		g, ok := got.(json.Number)
		if !ok || g.String() != w.String() {
			return bad()
		}
	case float32:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := strconv.ParseFloat(g.String(), 32)
		if err != nil || float32(f) != w {
			return bad()
		}
	case degrees:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		f, err := g.Float64()
		if err != nil || math.Abs(f-float64(w)) > 1e-9 {
			return bad()
		}
	case bit7:
		g, ok := got.(json.Number)
		if !ok {
			return bad()
		}
		n, err := strconv.Atoi(g.String())
		if err != nil || n&0x7F != int(w)&0x7F || n < 0 || n > 255 {
			return bad()
		}
	case time.Time:
		g, ok := got.(string)
		t, err := time.Parse(time.RFC3339Nano, g)
		if !ok || err != nil || !t.Equal(w) {
			return bad()
		}
	default:
		panic(fmt.Sprintf("l08: %T", want))
	}
	return ""
}
