// Package conv maps the oracle's packets (package ref) to the structures of the
// code under test and compares the two.
package conv

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/ref"
)

var Epoch = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)

func bin(v byte, n int) string { return fmt.Sprintf("%0*b", n, v) }
func bs(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

// Lat and Lon give the degrees a wire value stands for.
func Lat(v uint32) float64 { return float64(v) * 90 / 0xFFFFFFFF }
func Lon(v uint32) float64 { return float64(v) * 180 / 0xFFFFFFFF }

// Opt says how to fill the structures.
type Opt struct {
	Lengths bool       // set every length field, as decoding does
	Infer   bool       // leave subrecord types to be inferred where the API allows it
	Junk    *rand.Rand // fill the fields whose presence flag is off with arbitrary values
}

func (o Opt) j32() uint32 {
	if o.Junk == nil {
		return 0
	}
	return o.Junk.Uint32()
}
func (o Opt) j24() uint32 { return o.j32() >> 8 }
func (o Opt) j16() uint16 { return uint16(o.j32()) }
func (o Opt) j8() byte    { return byte(o.j32()) }
func (o Opt) js(n int) string {
	if o.Junk == nil {
		return ""
	}
	return ref.Str(o.Junk, n)
}

// ToEgts builds the structure of the code under test for p.
func ToEgts(p *ref.Packet, o Opt) *egts.Package {
	e := &egts.Package{ProtocolVersion: p.PRV, SecurityKeyID: p.SKID, Prefix: bin(p.PRF, 2), Route: bin(p.RTE, 1), EncryptionAlg: bin(p.ENA, 2),
		Compression: bin(p.CMP, 1), Priority: bin(p.PR, 2), HeaderEncoding: p.HE, PacketIdentifier: p.PID, PacketType: p.PT}
	if p.RTE == 1 {
		e.PeerAddress, e.RecipientAddress, e.TimeToLive = p.PRA, p.RCA, p.TTL
	} else {
		e.PeerAddress, e.RecipientAddress, e.TimeToLive = o.j16(), o.j16(), o.j8()
	}
	sds := Records(p.Records, o)
	if p.PT == ref.PtResponse {
		r := &egts.PtResponse{ResponsePacketID: p.RPID, ProcessingResult: p.Result}
		if len(p.Records) > 0 {
			r.SDR = sds
		}
		e.ServicesFrameData = r
	} else {
		e.ServicesFrameData = sds
	}
	if o.Lengths {
		w := p.Wire()
		e.HeaderLength = byte(p.HL())
		e.HeaderCheckSum = w[p.HL()-1]
		if n := len(w) - p.HL(); n > 0 {
			e.FrameDataLength = uint16(n - 2)
			e.ServicesFrameDataCheckSum = uint16(w[len(w)-2]) | uint16(w[len(w)-1])<<8
		}
	}
	return e
}

func Records(rs []ref.Record, o Opt) *egts.ServiceDataSet {
	s := egts.ServiceDataSet{}
	for i := range rs {
		r := &rs[i]
		d := egts.ServiceDataRecord{RecordNumber: r.RN, SourceServiceOnDevice: bin(r.SSOD, 1), RecipientServiceOnDevice: bin(r.RSOD, 1), Group: bin(r.GRP, 1),
			RecordProcessingPriority: bin(r.RPP, 2), TimeFieldExists: bs(r.TMFE), EventIDFieldExists: bs(r.EVFE), ObjectIDFieldExists: bs(r.OBFE),
			SourceServiceType: r.SST, RecipientServiceType: r.RST}
		pick := func(on bool, v uint32) uint32 {
			if on {
				return v
			}
			return o.j32()
		}
		d.ObjectIdentifier, d.EventIdentifier, d.Time = pick(r.OBFE, r.OID), pick(r.EVFE, r.EVID), pick(r.TMFE, r.TM)
		d.RecordDataSet = Subs(r.Subs, o)
		if o.Lengths {
			d.RecordLength = uint16(len(r.SubsWire()))
		}
		s = append(s, d)
	}
	return &s
}

func Subs(ss []ref.Sub, o Opt) egts.RecordDataSet {
	var out egts.RecordDataSet
	for _, sub := range ss {
		d := egts.RecordData{SubrecordType: sub.Type, SubrecordData: Value(sub.V, o)}
		if o.Infer && sub.Type != ref.TState20 {
			d.SubrecordType = 0
		}
		if o.Lengths {
			d.SubrecordLength = uint16(len(sub.V.Wire()))
		}
		out = append(out, d)
	}
	return out
}

// Value builds the structure for one subrecord.
func Value(v ref.Value, o Opt) egts.BinaryData {
	switch v := v.(type) {
	case *ref.Response:
		return &egts.SrResponse{ConfirmedRecordNumber: v.CRN, RecordStatus: v.RST}
	case *ref.Result:
		return &egts.SrResultCode{ResultCode: v.RCD}
	case *ref.Disp:
		return &egts.SrDispatcherIdentity{DispatcherType: v.DT, DispatcherID: v.DID, Description: v.DSCR}
	case *ref.Auth:
		return &egts.SrAuthInfo{UserName: v.UNM, UserPassword: v.UPSW, ServerSequence: v.SS}
	case *ref.State:
		return &egts.SrStateData{State: v.ST, MainPowerSourceVoltage: v.MPSV, BackUpBatteryVoltage: v.BBV, InternalBatteryVoltage: v.IBV, NMS: bin(v.NMS, 1), IBU: bin(v.IBU, 1), BBU: bin(v.BBU, 1)}
	case *ref.AbsAn:
		return &egts.SrAbsAnSensData{SensorNumber: v.ASN, Value: v.ASV}
	case *ref.AbsCntr:
		return &egts.SrAbsCntrData{CounterNumber: v.CN, CounterValue: v.CNV}
	case *ref.Liquid:
		return &egts.SrLiquidLevelSensor{LiquidLevelSensorErrorFlag: bin(v.LLSEF, 1), LiquidLevelSensorValueUnit: bin(v.LLSVU, 2), RawDataFlag: bin(v.RDF, 1),
			LiquidLevelSensorNumber: v.LLSN, ModuleAddress: v.MADDR, LiquidLevelSensorData: v.LLSD}
	case *ref.ExtPos:
		e := &egts.SrExtPosData{NavigationSystemFieldExists: bin(v.NSFE, 1), SatellitesFieldExists: bin(v.SFE, 1), PdopFieldExists: bin(v.PFE, 1), HdopFieldExists: bin(v.HFE, 1), VdopFieldExists: bin(v.VFE, 1),
			VerticalDilutionOfPrecision: v.VDOP, HorizontalDilutionOfPrecision: v.HDOP, PositionDilutionOfPrecision: v.PDOP, Satellites: v.SAT, NavigationSystem: v.NS}
		if v.VFE == 0 {
			e.VerticalDilutionOfPrecision = o.j16()
		}
		if v.HFE == 0 {
			e.HorizontalDilutionOfPrecision = o.j16()
		}
		if v.PFE == 0 {
			e.PositionDilutionOfPrecision = o.j16()
		}
		if v.SFE == 0 {
			e.Satellites = o.j8()
		}
		if v.NSFE == 0 {
			e.NavigationSystem = o.j16()
		}
		return e
	case *ref.Pos:
		e := &egts.SrPosData{NavigationTime: Epoch.Add(time.Duration(v.NTM) * time.Second), Latitude: Lat(v.LAT), Longitude: Lon(v.LON),
			ALTE: bin(v.ALTE, 1), LOHS: bin(v.LOHS, 1), LAHS: bin(v.LAHS, 1), MV: bin(v.MV, 1), BB: bin(v.BB, 1), CS: bin(v.CS, 1), FIX: bin(v.FIX, 1), VLD: bin(v.VLD, 1),
			DirectionHighestBit: v.DIRH, AltitudeSign: v.ALTS, Speed: v.SPD / 10, Direction: v.DIR, Odometer: v.ODM, DigitalInputs: v.DIN, Source: v.SRC, Altitude: v.ALT}
		if v.ALTE == 0 {
			e.Altitude = o.j24()
		}
		if len(v.SRCD) == 2 {
			e.SourceData = int16(uint16(v.SRCD[0]) | uint16(v.SRCD[1])<<8)
		}
		return e
	case *ref.Term:
		// the structure carries fixed width strings, padded with NUL
		fix := func(on byte, s string, n int) string {
			if on == 0 {
				return o.js(n)
			}
			if o.Junk != nil && o.Junk.Intn(2) == 0 {
				return s // unpadded, the encoder has to pad
			}
			return s + strings.Repeat("\x00", n-len(s))
		}
		e := &egts.SrTermIdentity{TerminalIdentifier: v.TID, MNE: bin(v.MNE, 1), BSE: bin(v.BSE, 1), NIDE: bin(v.NIDE, 1), SSRA: bin(v.SSRA, 1), LNGCE: bin(v.LNGCE, 1), IMSIE: bin(v.IMSIE, 1), IMEIE: bin(v.IMEIE, 1), HDIDE: bin(v.HDIDE, 1),
			IMEI: fix(v.IMEIE, v.IMEI, 15), IMSI: fix(v.IMSIE, v.IMSI, 16), LanguageCode: fix(v.LNGCE, v.LNGC, 3), MobileNumber: fix(v.MNE, v.MSISDN, 15)}
		if v.HDIDE == 1 {
			e.HomeDispatcherIdentifier = v.HDID
		} else {
			e.HomeDispatcherIdentifier = o.j16()
		}
		if v.NIDE == 1 {
			e.NetworkIdentifier = append([]byte(nil), v.NID[:]...)
		} else if o.Junk != nil {
			e.NetworkIdentifier = []byte(o.js(3))
		}
		if v.BSE == 1 {
			e.BufferSize = v.BS
		} else {
			e.BufferSize = o.j16()
		}
		return e
	case *ref.AdSens:
		e := &egts.SrAdSensorsData{DigitalOutputs: v.DOUT}
		rv := reflect.ValueOf(e).Elem()
		for i := 0; i < 8; i++ {
			d, a := v.DIOE>>i&1, v.ASFE>>i&1
			rv.FieldByName(fmt.Sprintf("DigitalInputsOctetExists%d", i+1)).SetString(bin(d, 1))
			rv.FieldByName(fmt.Sprintf("AnalogSensorFieldExists%d", i+1)).SetString(bin(a, 1))
			x, y := v.ADIO[i], v.ANS[i]
			if d == 0 {
				x = o.j8()
			}
			if a == 0 {
				y = o.j24()
			}
			rv.FieldByName(fmt.Sprintf("AdditionalDigitalInputsOctet%d", i+1)).SetUint(uint64(x))
			rv.FieldByName(fmt.Sprintf("AnalogSensor%d", i+1)).SetUint(uint64(y))
		}
		return e
	case *ref.Counters:
		e := &egts.SrCountersData{}
		rv := reflect.ValueOf(e).Elem()
		for i := 0; i < 8; i++ {
			c := v.CFE >> i & 1
			x := v.CN[i]
			if c == 0 {
				x = o.j24()
			}
			rv.FieldByName(fmt.Sprintf("CounterFieldExists%d", i+1)).SetString(bin(c, 1))
			rv.FieldByName(fmt.Sprintf("Counter%d", i+1)).SetUint(uint64(x))
		}
		return e
	case *ref.PlusVal:
		e := &egts.StorageRecord{}
		fillPlus(reflect.ValueOf(e).Elem(), v)
		return e
	}
	panic(fmt.Sprintf("conv: value %T", v))
}

func goName(s string) string {
	var b strings.Builder
	for i, w := range strings.Split(s, "_") {
		if w[0] >= '0' && w[0] <= '9' && i > 0 {
			b.WriteByte('_')
		}
		b.WriteString(strings.ToUpper(w[:1]) + w[1:])
	}
	return b.String()
}

func fillPlus(dst reflect.Value, v *ref.PlusVal) {
	for i, f := range v.M.Fields {
		fv := dst.FieldByName(goName(f.Name))
		if !fv.IsValid() {
			panic("conv: no field " + goName(f.Name) + " in " + dst.Type().String())
		}
		for _, x := range v.Vals[i] {
			set := func(to reflect.Value) {
				if m, ok := x.(*ref.PlusVal); ok {
					n := reflect.New(to.Type().Elem())
					fillPlus(n.Elem(), m)
					to.Set(n)
					return
				}
				if to.Kind() == reflect.Ptr {
					n := reflect.New(to.Type().Elem())
					n.Elem().Set(reflect.ValueOf(x).Convert(to.Type().Elem()))
					to.Set(n)
					return
				}
				to.Set(reflect.ValueOf(x).Convert(to.Type()))
			}
			if f.Label == "repeated" {
				n := reflect.New(fv.Type().Elem()).Elem()
				set(n)
				fv.Set(reflect.Append(fv, n))
			} else {
				set(fv)
			}
		}
	}
}

// Diff compares what a decoder produced with what it should have produced and
// names the first difference.
func Diff(got, want any) string { return DiffTol(got, want, 1e-9) }

// UnitTol lets coordinates differ by one unit in the last place (180/2^32 degrees).
const UnitTol = 4.3e-8

// DiffTol is Diff with a tolerance for coordinates in degrees.
func DiffTol(got, want any, tol float64) string {
	return differ{tol}.diff("", reflect.ValueOf(got), reflect.ValueOf(want))
}

type differ struct{ tol float64 }

var timeT = reflect.TypeOf(time.Time{})

func (x differ) diff(path string, g, w reflect.Value) string {
	if !g.IsValid() || !w.IsValid() {
		if g.IsValid() != w.IsValid() {
			return fmt.Sprintf("%s: got %v, want %v", path, g, w)
		}
		return ""
	}
	if g.Type() != w.Type() {
		return fmt.Sprintf("%s: got a %v, want a %v", path, g.Type(), w.Type())
	}
	switch g.Kind() {
	case reflect.Interface:
		return x.diff(path, g.Elem(), w.Elem())
	case reflect.Ptr:
		if g.IsNil() || w.IsNil() {
			if g.IsNil() != w.IsNil() {
				return fmt.Sprintf("%s: got nil=%v, want nil=%v", path, g.IsNil(), w.IsNil())
			}
			return ""
		}
		return x.diff(path, g.Elem(), w.Elem())
	case reflect.Slice:
		if g.Len() != w.Len() {
			return fmt.Sprintf("%s: got %d elements, want %d", path, g.Len(), w.Len())
		}
		for i := 0; i < g.Len(); i++ {
			if d := x.diff(fmt.Sprintf("%s[%d]", path, i), g.Index(i), w.Index(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		if g.Type() == timeT {
			a, b := g.Interface().(time.Time), w.Interface().(time.Time)
			if !a.Equal(b) {
				return fmt.Sprintf("%s: got %v, want %v", path, a, b)
			}
			return ""
		}
		pos := g.Type() == reflect.TypeOf(egts.SrPosData{})
		for i := 0; i < g.NumField(); i++ {
			f := g.Type().Field(i)
			if f.PkgPath != "" || strings.HasPrefix(f.Name, "XXX_") {
				continue
			}
			if pos && f.Name == "Direction" && w.FieldByName("DirectionHighestBit").Uint() == 1 {
				// the API folds the highest direction bit into bit 7, see DESIGN.md
				if g.Field(i).Uint()&0x7F != w.Field(i).Uint()&0x7F {
					return fmt.Sprintf("%s.Direction: got %d, want %d (low 7 bits)", path, g.Field(i).Uint(), w.Field(i).Uint())
				}
				continue
			}
			if d := x.diff(path+"."+f.Name, g.Field(i), w.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64:
		if math.Abs(g.Float()-w.Float()) > x.tol {
			return fmt.Sprintf("%s: got %v, want %v", path, g.Float(), w.Float())
		}
		return ""
	case reflect.Float32:
		if math.Float32bits(float32(g.Float())) != math.Float32bits(float32(w.Float())) {
			return fmt.Sprintf("%s: got %v, want %v", path, g.Float(), w.Float())
		}
		return ""
	case reflect.String:
		if g.String() != w.String() {
			return fmt.Sprintf("%s: got %q, want %q", path, g.String(), w.String())
		}
		return ""
	case reflect.Int32, reflect.Int16, reflect.Int64, reflect.Int, reflect.Int8:
		if g.Int() != w.Int() {
			return fmt.Sprintf("%s: got %d, want %d", path, g.Int(), w.Int())
		}
		return ""
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if g.Uint() != w.Uint() {
			return fmt.Sprintf("%s: got %d, want %d", path, g.Uint(), w.Uint())
		}
		return ""
	case reflect.Bool:
		if g.Bool() != w.Bool() {
			return fmt.Sprintf("%s: got %v, want %v", path, g.Bool(), w.Bool())
		}
		return ""
	}
	return fmt.Sprintf("%s: cannot compare %v", path, g.Type())
}

// Lossy gives the packet that re-encoding a decoded p may legitimately produce:
// speed is kept in whole km/h.
func Lossy(p *ref.Packet) *ref.Packet {
	q := Clone(p)
	for i := range q.Records {
		for j := range q.Records[i].Subs {
			if v, ok := q.Records[i].Subs[j].V.(*ref.Pos); ok {
				v.SPD -= v.SPD % 10
			}
		}
	}
	return q
}

// Clone copies p deep enough to change its positions.
func Clone(p *ref.Packet) *ref.Packet {
	q := *p
	q.Records = make([]ref.Record, len(p.Records))
	for i, r := range p.Records {
		r.Subs = append([]ref.Sub(nil), r.Subs...)
		for j := range r.Subs {
			if v, ok := r.Subs[j].V.(*ref.Pos); ok {
				c := *v
				r.Subs[j].V = &c
			}
		}
		q.Records[i] = r
	}
	return &q
}

func near(a, b uint32) bool { d := int64(a) - int64(b); return d >= -1 && d <= 1 }

// SameWire compares emitted bytes with the packet they should encode.
// Coordinates may be off by one unit; everything else must match exactly.
func SameWire(got []byte, want *ref.Packet) string {
	q := Clone(want)
	// walk the expected layout and take over coordinates that are one unit off
	off := q.HL()
	if q.PT == ref.PtResponse {
		off += 3
	}
	for i := range q.Records {
		r := &q.Records[i]
		h := len(r.Wire()) - len(r.SubsWire())
		off += h
		for _, s := range r.Subs {
			n := len(s.V.Wire())
			if v, ok := s.V.(*ref.Pos); ok && len(got) >= off+15 {
				lat, lon := le32(got[off+7:]), le32(got[off+11:])
				if near(lat, v.LAT) {
					v.LAT = lat
				}
				if near(lon, v.LON) {
					v.LON = lon
				}
			}
			off += 3 + n
		}
	}
	w := q.Wire()
	if len(w) != len(got) {
		return fmt.Sprintf("got %d bytes, want %d", len(got), len(w))
	}
	for i := range w {
		if w[i] != got[i] {
			return fmt.Sprintf("byte %d is %#02x, want %#02x", i, got[i], w[i])
		}
	}
	return ""
}

func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
