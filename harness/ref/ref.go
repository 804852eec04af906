// Package ref is an implementation of the EGTS wire format written only from
// the layout tables of GOST R 54619-2011, GOST R 33472-2015 and Order 285. It
// shares no code with the implementation under test and serves as its oracle.
package ref

import (
	"errors"
	"fmt"
)

// ---- checksums ------------------------------------------------------------

var crc8tab [256]byte
var crc16tab [256]uint16

func init() {
	for i := 0; i < 256; i++ {
		c := byte(i)
		for k := 0; k < 8; k++ {
			if c&0x80 != 0 {
				c = c<<1 ^ 0x31
			} else {
				c <<= 1
			}
		}
		crc8tab[i] = c
		w := uint16(i) << 8
		for k := 0; k < 8; k++ {
			if w&0x8000 != 0 {
				w = w<<1 ^ 0x1021
			} else {
				w <<= 1
			}
		}
		crc16tab[i] = w
	}
	// check values published for CRC-8 (poly 0x31, init 0xFF) and CRC-16/CCITT-FALSE
	if CRC8([]byte("123456789")) != 0xF7 || CRC16([]byte("123456789")) != 0x29B1 {
		panic("ref: checksum self test")
	}
}

func CRC8(b []byte) byte {
	c := byte(0xFF)
	for _, x := range b {
		c = crc8tab[c^x]
	}
	return c
}

func CRC16(b []byte) uint16 {
	c := uint16(0xFFFF)
	for _, x := range b {
		c = c<<8 ^ crc16tab[byte(c>>8)^x]
	}
	return c
}

// ---- little endian writer -------------------------------------------------

func le16(b []byte, v uint16) []byte { return append(b, byte(v), byte(v>>8)) }
func le24(b []byte, v uint32) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16)) }
func le32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func g16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func g32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// ---- packets --------------------------------------------------------------

const (
	PtResponse = 0
	PtAppdata  = 1
)

type Packet struct {
	PRV, SKID              byte
	PRF, RTE, ENA, CMP, PR byte // 2,1,2,1,2 bits
	HE                     byte
	PID                    uint16
	PT                     byte
	PRA, RCA               uint16
	TTL                    byte
	RPID                   uint16 // PT_RESPONSE only
	Result                 byte   // PT_RESPONSE only
	Records                []Record
}

type Record struct {
	RN                   uint16
	SSOD, RSOD, GRP, RPP byte // 1,1,1,2 bits
	TMFE, EVFE, OBFE     bool
	OID, EVID, TM        uint32
	SST, RST             byte
	Subs                 []Sub
}

type Sub struct {
	Type byte
	V    Value
}

// Value is the content of one subrecord.
type Value interface {
	Wire() []byte
}

func (p *Packet) HL() int {
	if p.RTE == 1 {
		return 16
	}
	return 11
}

func (p *Packet) Flags() byte {
	return p.PRF<<6 | p.RTE<<5 | p.ENA<<3 | p.CMP<<2 | p.PR
}

func b2(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (r *Record) Flags() byte {
	return r.SSOD<<7 | r.RSOD<<6 | r.GRP<<5 | r.RPP<<3 | b2(r.TMFE)<<2 | b2(r.EVFE)<<1 | b2(r.OBFE)
}

// SubsWire is the RD section.
func (r *Record) SubsWire() []byte {
	var b []byte
	for _, s := range r.Subs {
		w := s.V.Wire()
		b = append(b, s.Type)
		b = le16(b, uint16(len(w)))
		b = append(b, w...)
	}
	return b
}

func (r *Record) Wire() []byte {
	rd := r.SubsWire()
	var b []byte
	b = le16(b, uint16(len(rd)))
	b = le16(b, r.RN)
	b = append(b, r.Flags())
	if r.OBFE {
		b = le32(b, r.OID)
	}
	if r.EVFE {
		b = le32(b, r.EVID)
	}
	if r.TMFE {
		b = le32(b, r.TM)
	}
	b = append(b, r.SST, r.RST)
	return append(b, rd...)
}

func RecordsWire(rs []Record) []byte {
	var b []byte
	for i := range rs {
		b = append(b, rs[i].Wire()...)
	}
	return b
}

// Body is the SFRD section.
func (p *Packet) Body() []byte {
	var b []byte
	if p.PT == PtResponse {
		b = le16(b, p.RPID)
		b = append(b, p.Result)
	}
	return append(b, RecordsWire(p.Records)...)
}

// Wire is the complete packet.
func (p *Packet) Wire() []byte { return p.WireBody(p.Body()) }

// WireBody wraps an arbitrary body in this packet's header with right lengths and checksums.
func (p *Packet) WireBody(body []byte) []byte {
	b := []byte{p.PRV, p.SKID, p.Flags(), byte(p.HL()), p.HE}
	b = le16(b, uint16(len(body)))
	b = le16(b, p.PID)
	b = append(b, p.PT)
	if p.RTE == 1 {
		b = le16(b, p.PRA)
		b = le16(b, p.RCA)
		b = append(b, p.TTL)
	}
	b = append(b, CRC8(b))
	if len(body) > 0 {
		b = append(b, body...)
		b = le16(b, CRC16(body))
	}
	return b
}

// FrameLen tells the total length of the packet starting at b, needs 10 bytes.
func FrameLen(b []byte) (int, error) {
	if b[0] != 1 {
		return 0, fmt.Errorf("protocol version %d", b[0])
	}
	hl := int(b[3])
	if hl < 11 {
		return 0, fmt.Errorf("header length %d", hl)
	}
	n := hl
	if f := int(g16(b[5:7])); f > 0 {
		n += f + 2
	}
	return n, nil
}

// Raw is a subrecord kept as bytes.
type Raw struct{ B []byte }

func (r Raw) Wire() []byte { return r.B }

// Parse decodes a complete packet strictly: every length, checksum and flag
// must agree and nothing may be left over. Subrecords stay raw.
func Parse(b []byte) (*Packet, error) {
	if len(b) < 11 {
		return nil, errors.New("short header")
	}
	fl := b[2]
	p := &Packet{PRV: b[0], SKID: b[1], PRF: fl >> 6, RTE: fl >> 5 & 1, ENA: fl >> 3 & 3, CMP: fl >> 2 & 1, PR: fl & 3, HE: b[4], PID: g16(b[7:9]), PT: b[9]}
	if int(b[3]) != p.HL() {
		return nil, fmt.Errorf("HL %d with RTE %d", b[3], p.RTE)
	}
	if len(b) < p.HL() {
		return nil, errors.New("short header")
	}
	if p.RTE == 1 {
		p.PRA, p.RCA, p.TTL = g16(b[10:12]), g16(b[12:14]), b[14]
	}
	if b[p.HL()-1] != CRC8(b[:p.HL()-1]) {
		return nil, errors.New("HCS")
	}
	fdl := int(g16(b[5:7]))
	rest := b[p.HL():]
	if fdl == 0 {
		if len(rest) != 0 {
			return nil, fmt.Errorf("%d bytes after a packet without body", len(rest))
		}
		return p, nil
	}
	if len(rest) != fdl+2 {
		return nil, fmt.Errorf("FDL %d but %d bytes follow", fdl, len(rest)-2)
	}
	body := rest[:fdl]
	if g16(rest[fdl:]) != CRC16(body) {
		return nil, errors.New("SFRCS")
	}
	switch p.PT {
	case PtResponse:
		if len(body) < 3 {
			return nil, errors.New("short response")
		}
		p.RPID, p.Result = g16(body), body[2]
		body = body[3:]
	case PtAppdata:
	default:
		return nil, fmt.Errorf("PT %d", p.PT)
	}
	var err error
	p.Records, err = ParseRecords(body)
	return p, err
}

func ParseRecords(b []byte) ([]Record, error) {
	var out []Record
	for len(b) > 0 {
		if len(b) < 7 {
			return nil, errors.New("short record header")
		}
		var r Record
		rl := int(g16(b))
		r.RN = g16(b[2:])
		f := b[4]
		r.SSOD, r.RSOD, r.GRP, r.RPP = f>>7, f>>6&1, f>>5&1, f>>3&3
		r.TMFE, r.EVFE, r.OBFE = f&4 != 0, f&2 != 0, f&1 != 0
		b = b[5:]
		for _, x := range []struct {
			on bool
			to *uint32
		}{{r.OBFE, &r.OID}, {r.EVFE, &r.EVID}, {r.TMFE, &r.TM}} {
			if x.on {
				if len(b) < 4 {
					return nil, errors.New("short record header")
				}
				*x.to = g32(b)
				b = b[4:]
			}
		}
		if len(b) < 2+rl {
			return nil, fmt.Errorf("RL %d exceeds the %d bytes left", rl, len(b)-2)
		}
		r.SST, r.RST = b[0], b[1]
		rd := b[2 : 2+rl]
		b = b[2+rl:]
		for len(rd) > 0 {
			if len(rd) < 3 {
				return nil, errors.New("short subrecord header")
			}
			n := int(g16(rd[1:]))
			if len(rd) < 3+n {
				return nil, fmt.Errorf("SRL %d exceeds the %d bytes left", n, len(rd)-3)
			}
			r.Subs = append(r.Subs, Sub{rd[0], Raw{append([]byte(nil), rd[3:3+n]...)}})
			rd = rd[3+n:]
		}
		out = append(out, r)
	}
	return out, nil
}
