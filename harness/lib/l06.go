package lib

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

type section interface {
	Encode() ([]byte, error)
	Length() uint16
}

// L06: lengths agree with the content, what does not fit is refused.
func L06(r *h.Run) {
	r.Rule = "random packets with every length field unset are encoded and read back by a strict independent parser (every length and checksum must agree, nothing left over, same shape); Length() of every section is compared with its encoding; contents of 65530..65600 and more bytes are put into subrecords, records and frames; each range-limited field is set to values around and beyond its limit. Distinct by encoded bytes or by (field, value)."
	done := make(chan struct{})
	defer close(done)
	go watchdog(r, done)
	lengths := func(what string, s section) {
		r.Guard("length", func() any { return what }, func() {
			b, err := s.Encode()
			if err != nil {
				return // judged elsewhere
			}
			if l := s.Length(); int(l) != len(b) {
				r.Violate("Length of "+what, fmt.Sprintf("%s: Length() is %d, the encoding has %d bytes", what, l, len(b)), map[string]any{"what": what, "encoded": hexs(b)})
			}
			r.Count("lengths compared", 1)
		})
	}
	strict := func(p *ref.Packet, o conv.Opt) {
		r.Guard("encode", func() any { return replayPkt(p, "") }, func() {
			e := conv.ToEgts(p, o)
			b, err := e.Encode()
			if err != nil {
				r.Violate("encode fails", err.Error(), replayPkt(p, ""))
				return
			}
			q, err := ref.Parse(b)
			if err != nil {
				r.Violate("inconsistent packet", fmt.Sprintf("the encoded packet does not parse: %v", err), map[string]any{"shape": typeSig(p), "encoded": hexs(b), "expected_wire": hexs(p.Wire())})
				return
			}
			if typeSig(q) != typeSig(p) {
				r.Violate("other shape", fmt.Sprintf("encoded as %s, want %s", typeSig(q), typeSig(p)), map[string]any{"encoded": hexs(b), "expected_wire": hexs(p.Wire())})
				return
			}
			for i := range p.Records {
				for j, s := range p.Records[i].Subs {
					if g, w := len(q.Records[i].Subs[j].V.Wire()), len(s.V.Wire()); g != w {
						r.Violate(fmt.Sprintf("content size of type %d", s.Type), fmt.Sprintf("record %d subrecord %d (type %d) has %d bytes, want %d", i, j, s.Type, g, w), map[string]any{"encoded": hexs(b), "expected_wire": hexs(p.Wire())})
						return
					}
				}
			}
			if int(e.FrameDataLength) != len(p.Body()) {
				r.Violate("FrameDataLength of the structure", fmt.Sprintf("%d, body has %d bytes", e.FrameDataLength, len(p.Body())), replayPkt(p, ""))
			}
			r.Eval(string(b))
			r.Count("packets parsed back", 1)
			lengths("the frame", e.ServicesFrameData)
			var sds *egts.ServiceDataSet
			switch d := e.ServicesFrameData.(type) {
			case *egts.ServiceDataSet:
				sds = d
			case *egts.PtResponse:
				sds, _ = d.SDR.(*egts.ServiceDataSet)
			}
			if sds == nil {
				return
			}
			lengths("the record set", sds)
			for i := range *sds {
				rds := (*sds)[i].RecordDataSet
				lengths("the subrecord set", &rds)
				if i > 20 {
					break
				}
				for _, rd := range rds {
					lengths(fmt.Sprintf("%T", rd.SubrecordData), rd.SubrecordData)
				}
			}
		})
	}
	r.Parallel("strict", r.Scale(400, 12000), runtime.NumCPU(), func(shard int, rng *rand.Rand) {
		for k := 0; k < 40; k++ {
			i := shard*40 + k
			p := evenSpeed(gen(rng, i))
			o := variant(rng, i)
			o.Lengths = false
			strict(p, o)
			if i%997 == 0 {
				r.Sample(map[string]any{"shape": typeSig(p), "wire": hexs(p.Wire())})
			}
		}
	})
	rng := r.Rng("edges")
	for m := 0; m < 256; m++ {
		for _, v := range patterns(rng, byte(m)) {
			p := ref.RandHeader(rng)
			p.Records = []ref.Record{ref.RandRecord(rng, []byte{ref.TResult}, 0)}
			p.Records[0].Subs = []ref.Sub{v}
			o := variant(rng, m)
			o.Lengths = false
			strict(evenSpeed(p), o)
		}
	}
	// sizes around the limit of 16 bit lengths
	text := func(n int) *egts.SrDispatcherIdentity { // content of n bytes
		return &egts.SrDispatcherIdentity{DispatcherType: 1, DispatcherID: 2, Description: ref.Str(rng, n-5)}
	}
	pkg := func(s egts.BinaryData) *egts.Package {
		return &egts.Package{ProtocolVersion: 1, Prefix: "00", Route: "0", EncryptionAlg: "00", Compression: "0", Priority: "00", PacketIdentifier: 5, PacketType: 1, ServicesFrameData: s}
	}
	rec := func(n int, subs ...egts.RecordData) egts.ServiceDataRecord {
		return egts.ServiceDataRecord{RecordNumber: uint16(n), SourceServiceOnDevice: "0", RecipientServiceOnDevice: "0", Group: "0", RecordProcessingPriority: "00", TimeFieldExists: "0", EventIDFieldExists: "0", ObjectIDFieldExists: "0", SourceServiceType: 2, RecipientServiceType: 2, RecordDataSet: subs}
	}
	// subrecords without content, alone and between others
	for _, t := range append([]byte{0}, ref.AllTypes...) {
		for at := 0; at < 3; at++ {
			subs := egts.RecordDataSet{}
			for i := 0; i < 3; i++ {
				if i == at {
					subs = append(subs, egts.RecordData{SubrecordType: t})
				} else {
					subs = append(subs, egts.RecordData{SubrecordType: egts.SrResultCodeType, SubrecordData: &egts.SrResultCode{ResultCode: 1}})
				}
			}
			what := fmt.Sprintf("subrecord %d of 3, type %d, has no content", at, t)
			r.Guard("no content", func() any { return what }, func() {
				r.Eval(what)
				r.Count("subrecords without content tried", 1)
				if b, err := subs.Encode(); err == nil {
					r.Violate("subrecord without content encoded", what+", yet encodes to "+hexs(b), what)
				} else if l := subs.Length(); l != 0 {
					r.Violate("length of a section that cannot be encoded", fmt.Sprintf("%s: Length() is %d, Encode fails: %v", what, l, err), what)
				}
				if b, err := pkg(&egts.ServiceDataSet{rec(1, subs...)}).Encode(); err == nil {
					r.Violate("subrecord without content encoded", what+", yet the packet encodes to "+hexs(b), what)
				}
			})
		}
	}
	// size is the SFRD size the content would have
	bound := func(what string, size int, fits bool, mk func() *egts.Package) {
		r.Guard(what, func() any { return map[string]any{"what": what, "size": size} }, func() {
			b, err := mk().Encode()
			c := map[string]any{"what": what, "size": size, "encoded_len": len(b)}
			r.Eval(fmt.Sprint(what, size))
			r.Count("size limits tried", 1)
			if fits {
				if err != nil {
					r.Violate("fitting content refused", fmt.Sprintf("%s of %d bytes: %v", what, size, err), c)
					return
				}
				if _, err := ref.Parse(b); err != nil {
					r.Violate("inconsistent packet", fmt.Sprintf("%s of %d bytes: %v", what, size, err), c)
				}
				return
			}
			if err == nil {
				_, perr := ref.Parse(b)
				r.Violate("oversized content encoded", fmt.Sprintf("%s of %d bytes encodes without error (reads back: %v)", what, size, perr), c)
			}
		})
	}
	sizes := []int{65500, 65524, 65525, 65526, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 65541, 65542, 65543, 65545, 65546, 65550, 65600, 70000, 100000, 131070, 131071, 131072, 131080, 200000, 262144 + 50}
	for _, n := range sizes {
		n := n
		for _, resp := range []bool{false, true} {
			resp := resp
			wrap := func(s *egts.ServiceDataSet) *egts.Package {
				if !resp {
					return pkg(s)
				}
				p := pkg(&egts.PtResponse{ResponsePacketID: 3, SDR: s})
				p.PacketType = 0
				return p
			}
			x := 0
			name := ""
			if resp {
				x, name = 3, " in a response"
			}
			// one subrecord whose content has n bytes: SRL n, RL n+3, SFRD n+10(+3)
			bound("subrecord content"+name, n, n+10+x <= 65535, func() *egts.Package {
				return wrap(&egts.ServiceDataSet{rec(1, egts.RecordData{SubrecordType: 5, SubrecordData: text(n)})})
			})
			// a record section of n bytes out of many small subrecords
			bound("record section"+name, n, n+7+x <= 65535, func() *egts.Package {
				var subs []egts.RecordData
				left := n
				for left > 4103 {
					subs = append(subs, egts.RecordData{SubrecordType: 5, SubrecordData: text(1000)})
					left -= 1003
				}
				subs = append(subs, egts.RecordData{SubrecordType: 5, SubrecordData: text(left - 3)})
				return wrap(&egts.ServiceDataSet{rec(1, subs...)})
			})
			// a frame of n bytes out of many records
			bound("frame"+name, n, n <= 65535, func() *egts.Package {
				s := egts.ServiceDataSet{}
				left := n - x
				for i := 0; left > 0; i++ {
					k := 1010
					if left < 2100 {
						k = left
					}
					s = append(s, rec(i, egts.RecordData{SubrecordType: 5, SubrecordData: text(k - 10)}))
					left -= k
				}
				return wrap(&s)
			})
		}
		// sections on their own must not hide it either
		r.Guard("sections", func() any { return n }, func() {
			rds := egts.RecordDataSet{{SubrecordType: 5, SubrecordData: text(n)}}
			b, err := rds.Encode()
			if n > 65535 && err == nil {
				r.Violate("oversized content encoded", fmt.Sprintf("a subrecord of %d bytes encodes to %d bytes without error", n, len(b)), map[string]any{"size": n})
			}
		})
	}
	// fields with a range
	field := func(name string, val any, fits bool, d egts.BinaryData) {
		r.Guard(name, func() any { return fmt.Sprintf("%s = %v", name, val) }, func() {
			r.Eval(fmt.Sprint(name, val))
			r.Count("field limits tried", 1)
			b, err := d.Encode()
			c := map[string]any{"field": name, "value": fmt.Sprint(val), "encoded": hexs(b)}
			if fits && err != nil {
				r.Violate("value refused: "+name, fmt.Sprintf("%s = %v: %v", name, val, err), c)
			}
			if !fits && err == nil {
				r.Violate("overflow encoded: "+name, fmt.Sprintf("%s = %v encodes without error to %s", name, val, hexs(b)), c)
			}
			// and within a packet
			p := pkg(&egts.ServiceDataSet{rec(1, egts.RecordData{SubrecordData: d})})
			w, err := p.Encode()
			if !fits && err == nil {
				r.Violate("overflow encoded: "+name, fmt.Sprintf("%s = %v encodes without error in a packet", name, val), map[string]any{"field": name, "value": fmt.Sprint(val), "encoded": hexs(w)})
			}
			if fits && err == nil {
				if _, err := ref.Parse(w); err != nil {
					r.Violate("inconsistent packet", fmt.Sprintf("%s = %v: %v", name, val, err), map[string]any{"encoded": hexs(w)})
				}
			}
		})
	}
	for n := 0; n < 256; n++ {
		f := rng.Intn(4)
		field("liquid sensor number", n, n <= 7, &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: fmt.Sprint(f & 1), LiquidLevelSensorValueUnit: "01", RawDataFlag: fmt.Sprint(f >> 1), LiquidLevelSensorNumber: byte(n), ModuleAddress: 3, LiquidLevelSensorData: 7})
	}
	pos := func() *egts.SrPosData {
		v := ref.RandPos(rng)
		v.SPD = v.SPD / 10 * 10
		return conv.Value(v, conv.Opt{}).(*egts.SrPosData)
	}
	for n := 0; n < 65536; n++ {
		if n > 1700 && n < 65000 && n%97 != 0 && (n+6554)%6554 > 3 {
			continue
		}
		p := pos()
		p.Speed = uint16(n)
		field("speed", n, n <= 1638, p)
	}
	for n := 0; n < 256; n++ {
		p := pos()
		p.AltitudeSign = byte(n)
		field("altitude sign", n, n <= 1, p)
		p = pos()
		p.DirectionHighestBit = byte(n)
		p.Direction &= 0x7F
		field("direction highest bit", n, n <= 1, p)
	}
	for _, v := range []float64{0, 1e-9, 1, 89.9999999, 90, math.Nextafter(90, 91), 90.0000001, 91, 180, 200, 360, 1e6, 1e18, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), -1e-9, -1, -55.75, -90, -180, -1e300} {
		p := pos()
		p.Latitude = v
		field("latitude", v, v >= 0 && v <= 90, p)
	}
	for _, v := range []float64{0, 1e-9, 1, 90, 179.9999999, 180, math.Nextafter(180, 181), 180.0000001, 181, 200, 360, 1e6, 1e18, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), -1e-9, -1, -37.6, -90, -180, -1e300} {
		p := pos()
		p.Longitude = v
		field("longitude", v, v >= 0 && v <= 180, p)
	}
	for k := 0; k < r.Scale(2000, 100000); k++ {
		p := pos()
		if k%2 == 0 {
			p.Latitude = (rng.Float64() - 0.5) * 400
			field("latitude", p.Latitude, p.Latitude >= 0 && p.Latitude <= 90, p)
		} else {
			p.Longitude = (rng.Float64() - 0.5) * 800
			field("longitude", p.Longitude, p.Longitude >= 0 && p.Longitude <= 180, p)
		}
	}
	flagFields(r)
	last := conv.Epoch.Add(time.Duration(math.MaxUint32) * time.Second)
	for _, t := range []time.Time{conv.Epoch, conv.Epoch.Add(time.Second), conv.Epoch.Add(-time.Second), conv.Epoch.Add(-24 * time.Hour), last, last.Add(time.Second), last.Add(time.Hour), last.AddDate(200, 0, 0), last.AddDate(5000, 0, 0), {}, time.Unix(0, 0), time.Unix(1262304000-1, 0), time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2009, 12, 31, 23, 59, 59, 0, time.UTC), conv.Epoch.In(time.FixedZone("x", 3*3600)), time.Date(2010, 1, 1, 2, 0, 0, 0, time.FixedZone("x", 3*3600))} {
		p := pos()
		p.NavigationTime = t
		s := t.Unix() - conv.Epoch.Unix()
		field("navigation time", t, s >= 0 && s <= math.MaxUint32, p)
	}
	for n := 0; n < 40; n++ {
		s := ref.Str(rng, n)
		base := func() *egts.SrTermIdentity {
			return &egts.SrTermIdentity{TerminalIdentifier: 1, MNE: "0", BSE: "0", NIDE: "0", SSRA: "0", LNGCE: "0", IMSIE: "0", IMEIE: "0", HDIDE: "0"}
		}
		t := base()
		t.IMEIE, t.IMEI = "1", s
		field("IMEI length", n, n <= 15, t)
		t = base()
		t.IMSIE, t.IMSI = "1", s
		field("IMSI length", n, n <= 16, t)
		t = base()
		t.LNGCE, t.LanguageCode = "1", s
		field("language code length", n, n <= 3, t)
		t = base()
		t.MNE, t.MobileNumber = "1", s
		field("MSISDN length", n, n <= 15, t)
		if n >= 3 {
			t = base()
			t.NIDE, t.NetworkIdentifier = "1", []byte(s)
			field("network id length", n, n <= 3, t)
		}
	}
}

// texts are the string fields that hold no bits.
var texts = map[string]bool{"IMEI": true, "IMSI": true, "LanguageCode": true, "MobileNumber": true, "Description": true, "UserName": true, "UserPassword": true, "ServerSequence": true}

// flagFields gives every bit field of the header, of records and of subrecords values
// that do not have its width: they would move the neighbouring fields.
func flagFields(r *h.Run) {
	two := map[string]bool{"Prefix": true, "EncryptionAlg": true, "Priority": true, "RecordProcessingPriority": true, "LiquidLevelSensorValueUnit": true}
	seen := map[string]bool{}
	try := func(what, field, val string, set func(*egts.Package) (section, bool), p *ref.Packet) {
		r.Guard("flags", func() any { return map[string]any{"field": what + "." + field, "value": val} }, func() {
			e := conv.ToEgts(p, conv.Opt{})
			sec, ok := set(e)
			if !ok {
				return
			}
			seen[what+"."+field] = true
			r.Eval(what + field + val)
			r.Count("bit fields of a wrong width tried", 1)
			c := map[string]any{"field": what + "." + field, "value": val}
			if sec != nil {
				if b, err := sec.Encode(); err == nil {
					c["encoded"] = hexs(b)
					r.Violate("bit field of a wrong width encoded: "+what+"."+field, fmt.Sprintf("%s = %q encodes without error to %s", field, val, hexs(b)), c)
				} else if l := sec.Length(); l != 0 {
					r.Violate("length of a section that cannot be encoded: "+what, fmt.Sprintf("Length() is %d, Encode fails: %v", l, err), c)
				}
			}
			if b, err := e.Encode(); err == nil {
				c["encoded"] = hexs(b)
				r.Violate("bit field of a wrong width encoded: "+what+"."+field, fmt.Sprintf("%s = %q encodes without error in a packet: %s", field, val, hexs(b)), c)
			}
		})
	}
	const digits = "23456789abf+-_ xB\x00\n"
	bad := func(rng *rand.Rand, width int) string {
		for {
			n := rng.Intn(5)
			b := make([]byte, n)
			for i := range b {
				b[i] = "01"[rng.Intn(2)]
			}
			switch rng.Intn(8) {
			case 0:
				if n > 0 {
					b[rng.Intn(n)] = digits[rng.Intn(len(digits))]
				}
			case 1:
				if width == 1 {
					return []string{"true", "false", "0b1", "+1", "-0", "0x1", "١"}[rng.Intn(7)]
				}
			}
			s := string(b)
			if len(s) == width && strings.Trim(s, "01") == "" {
				continue
			}
			return s
		}
	}
	// fill sets one bit field (and sometimes a neighbour so that the total width is right again)
	fill := func(rng *rand.Rand, v reflect.Value, k int) (string, string, bool) {
		var idx []int
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Kind() == reflect.String && !texts[v.Type().Field(i).Name] {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return "", "", false
		}
		n := idx[k%len(idx)]
		name := v.Type().Field(n).Name
		width := 1
		if two[name] {
			width = 2
		}
		s := bad(rng, width)
		old := v.Field(n).String()
		v.Field(n).SetString(s)
		if rng.Intn(3) == 0 && len(idx) > 1 {
			m := idx[(k+1)%len(idx)]
			t := v.Field(m).String()
			if len(s) > len(old) && len(t) > 0 {
				v.Field(m).SetString(t[min(len(t), len(s)-len(old)):])
			} else if len(s) < len(old) {
				v.Field(m).SetString(strings.Repeat("0", len(old)-len(s)) + t)
			}
			s += " and " + v.Type().Field(m).Name + "=" + v.Field(m).String()
		}
		return name, s, true
	}
	rng := r.Rng("flags")
	for k := 0; k < r.Scale(60, 1500); k++ {
		for _, typ := range ref.AllTypes {
			p := ref.RandHeader(rng)
			p.Records = []ref.Record{ref.RandRecord(rng, []byte{typ}, 1)}
			seed := rng.Int63()
			for _, level := range []string{"header", "record", "subrecord"} {
				var name, val string
				rr := rand.New(rand.NewSource(seed))
				set := func(e *egts.Package) (section, bool) {
					rr.Seed(seed)
					var ok bool
					if level == "header" {
						name, val, ok = fill(rr, reflect.ValueOf(e).Elem(), k)
						return nil, ok
					}
					var sds *egts.ServiceDataSet
					switch d := e.ServicesFrameData.(type) {
					case *egts.ServiceDataSet:
						sds = d
					case *egts.PtResponse:
						sds, _ = d.SDR.(*egts.ServiceDataSet)
					}
					if sds == nil || len(*sds) == 0 {
						return nil, false
					}
					rec := &(*sds)[0]
					if level == "record" {
						name, val, ok = fill(rr, reflect.ValueOf(rec).Elem(), k)
						return sds, ok
					}
					if len(rec.RecordDataSet) == 0 {
						return nil, false
					}
					d := rec.RecordDataSet[0].SubrecordData
					name, val, ok = fill(rr, reflect.ValueOf(d).Elem(), k)
					return d, ok
				}
				what := level
				if level == "subrecord" {
					what = fmt.Sprintf("subrecord %d", typ)
				}
				if _, ok := set(conv.ToEgts(p, conv.Opt{})); ok {
					try(what, name, val, set, p)
				}
			}
		}
	}
	r.Count("bit fields", int64(len(seen)))
}
