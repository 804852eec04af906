package ref

import "math/rand"

// Bound draws an n bit value, favouring the extremes and powers of two.
func Bound(r *rand.Rand, n int) uint64 {
	max := uint64(1)<<n - 1
	switch r.Intn(10) {
	case 0:
		return 0
	case 1:
		return max
	case 2:
		return 1
	case 3, 4:
		p := uint64(1) << r.Intn(n)
		return (p + uint64(r.Intn(3)) - 1) & max
	case 5:
		return max - uint64(r.Intn(3))&max
	default:
		return r.Uint64() & max
	}
}

func bit(r *rand.Rand) byte   { return byte(r.Intn(2)) }
func u8(r *rand.Rand) byte    { return byte(Bound(r, 8)) }
func u16(r *rand.Rand) uint16 { return uint16(Bound(r, 16)) }
func u24(r *rand.Rand) uint32 { return uint32(Bound(r, 24)) }
func u32(r *rand.Rand) uint32 { return uint32(Bound(r, 32)) }
func mask(r *rand.Rand) byte {
	switch r.Intn(4) {
	case 0:
		return 1 << r.Intn(8)
	case 1:
		return 0xFF &^ (1 << r.Intn(8))
	default:
		return u8(r)
	}
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+.,:;!?*/\\\"'<>&"

// Str makes a printable string of length n.
func Str(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.Intn(len(alphabet))]
	}
	return string(b)
}

// RandStr is a string without NUL of at most n bytes, at times with non-ASCII bytes.
func RandStr(r *rand.Rand, n int) string {
	l := 0
	switch r.Intn(4) {
	case 0:
		l = n
	case 1:
		if n > 0 {
			l = n - 1
		}
	default:
		l = r.Intn(n + 1)
	}
	if r.Intn(4) == 0 {
		b := make([]byte, l)
		for i := range b {
			b[i] = byte(1 + r.Intn(255))
		}
		return string(b)
	}
	return Str(r, l)
}

func Digits(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = '0' + byte(r.Intn(10))
	}
	return string(b)
}

// RandPos makes a position. Directions stay below 128 when the highest bit is
// set, see DESIGN.md (the two share a bit in the implementation's API).
func RandPos(r *rand.Rand) *Pos {
	v := &Pos{NTM: u32(r), LAT: u32(r), LON: u32(r), ALTE: bit(r), LOHS: bit(r), LAHS: bit(r), MV: bit(r), BB: bit(r), CS: bit(r), FIX: bit(r), VLD: bit(r),
		SPD: uint16(Bound(r, 14)), DIRH: bit(r), ALTS: bit(r), DIR: u8(r), ODM: u24(r), DIN: u8(r), SRC: u8(r)}
	if v.ALTE == 1 {
		v.ALT = u24(r)
	}
	if v.DIRH == 1 {
		v.DIR &= 0x7F
	}
	if r.Intn(5) == 0 { // zero is transmitted only in L03's special case, see there
		x := uint16(1 + r.Intn(65535))
		v.SRCD = []byte{byte(x), byte(x >> 8)}
	}
	return v
}

func RandTerm(r *rand.Rand) *Term {
	v := &Term{TID: u32(r), MNE: bit(r), BSE: bit(r), NIDE: bit(r), SSRA: bit(r), LNGCE: bit(r), IMSIE: bit(r), IMEIE: bit(r), HDIDE: bit(r)}
	if v.HDIDE == 1 {
		v.HDID = u16(r)
	}
	if v.IMEIE == 1 {
		v.IMEI = RandStr(r, 15)
		if r.Intn(2) == 0 {
			v.IMEI = Digits(r, 15)
		}
	}
	if v.IMSIE == 1 {
		v.IMSI = RandStr(r, 16)
	}
	if v.LNGCE == 1 {
		v.LNGC = RandStr(r, 3)
	}
	if v.NIDE == 1 {
		r.Read(v.NID[:])
	}
	if v.BSE == 1 {
		v.BS = u16(r)
	}
	if v.MNE == 1 {
		v.MSISDN = RandStr(r, 15)
	}
	return v
}

// RandValue makes a random content for a subrecord type.
func RandValue(r *rand.Rand, t byte) Value {
	switch t {
	case TResponse:
		return &Response{CRN: u16(r), RST: u8(r)}
	case TTerm:
		return RandTerm(r)
	case TDisp:
		return &Disp{DT: u8(r), DID: u32(r), DSCR: RandStr(r, 40)}
	case TAuth:
		v := &Auth{UNM: RandStr(r, 32), UPSW: RandStr(r, 32)}
		if r.Intn(2) == 0 {
			v.SS = RandStr(r, 255)
		}
		return v
	case TResult:
		return &Result{RCD: u8(r)}
	case TPlus:
		return RandPlus(r, r.Intn(6) == 0)
	case TPos:
		return RandPos(r)
	case TExtPos:
		v := &ExtPos{NSFE: bit(r), SFE: bit(r), PFE: bit(r), HFE: bit(r), VFE: bit(r)}
		if v.VFE == 1 {
			v.VDOP = u16(r)
		}
		if v.HFE == 1 {
			v.HDOP = u16(r)
		}
		if v.PFE == 1 {
			v.PDOP = u16(r)
		}
		if v.SFE == 1 {
			v.SAT = u8(r)
		}
		if v.NSFE == 1 {
			v.NS = u16(r)
		}
		return v
	case TAdSens:
		v := &AdSens{DIOE: mask(r), DOUT: u8(r), ASFE: mask(r)}
		for i := 0; i < 8; i++ {
			if v.DIOE>>i&1 == 1 {
				v.ADIO[i] = u8(r)
			}
			if v.ASFE>>i&1 == 1 {
				v.ANS[i] = u24(r)
			}
		}
		return v
	case TCounters:
		v := &Counters{CFE: mask(r)}
		for i := 0; i < 8; i++ {
			if v.CFE>>i&1 == 1 {
				v.CN[i] = u24(r)
			}
		}
		return v
	case TState20, TState:
		return &State{ST: u8(r), MPSV: u8(r), BBV: u8(r), IBV: u8(r), NMS: bit(r), IBU: bit(r), BBU: bit(r)}
	case TAbsAn:
		return &AbsAn{ASN: u8(r), ASV: u24(r)}
	case TAbsCntr:
		n := u8(r)
		if r.Intn(3) == 0 {
			n = 110 + bit(r)
		}
		return &AbsCntr{CN: n, CNV: u24(r)}
	case TLiquid:
		return &Liquid{LLSEF: bit(r), LLSVU: byte(r.Intn(4)), RDF: bit(r), LLSN: byte(r.Intn(8)), MADDR: u16(r), LLSD: u32(r)}
	}
	panic("ref: no generator for subrecord type")
}

// RandSub makes a subrecord of a random type out of types.
func RandSub(r *rand.Rand, types []byte) Sub {
	t := types[r.Intn(len(types))]
	return Sub{t, RandValue(r, t)}
}

// RandRecord makes a record with nSubs subrecords.
func RandRecord(r *rand.Rand, types []byte, nSubs int) Record {
	rec := Record{RN: u16(r), SSOD: bit(r), RSOD: bit(r), GRP: bit(r), RPP: byte(r.Intn(4)),
		TMFE: r.Intn(2) == 1, EVFE: r.Intn(2) == 1, OBFE: r.Intn(2) == 1, SST: u8(r), RST: u8(r)}
	if rec.OBFE {
		rec.OID = u32(r)
	}
	if rec.EVFE {
		rec.EVID = u32(r)
	}
	if rec.TMFE {
		rec.TM = u32(r)
	}
	for i := 0; i < nSubs; i++ {
		rec.Subs = append(rec.Subs, RandSub(r, types))
	}
	return rec
}

// RandHeader makes a packet header with everything random.
func RandHeader(r *rand.Rand) *Packet {
	p := &Packet{PRV: u8(r), SKID: u8(r), PRF: byte(r.Intn(4)), RTE: bit(r), ENA: byte(r.Intn(4)), CMP: bit(r), PR: byte(r.Intn(4)), HE: u8(r), PID: u16(r), PT: PtAppdata}
	if p.RTE == 1 {
		p.PRA, p.RCA, p.TTL = u16(r), u16(r), u8(r)
	}
	return p
}

// RandPacket makes a packet. Big ones approach the 64 KB limit.
func RandPacket(r *rand.Rand, types []byte, big bool) *Packet {
	p := RandHeader(r)
	if r.Intn(3) == 0 {
		p.PT = PtResponse
		p.RPID, p.Result = u16(r), u8(r)
	}
	limit := 200 + r.Intn(1500)
	if big {
		limit = 1000 + r.Intn(65535-1000)
		if r.Intn(3) == 0 {
			limit = 65535
		}
	}
	nrec := []int{0, 1, 1, 1, 2, 3, 5, 8, 20}[r.Intn(9)]
	if big {
		nrec = 1 + r.Intn(300)
	}
	size := 3
	for i := 0; i < nrec; i++ {
		nsub := []int{0, 1, 1, 2, 3, 5, 9}[r.Intn(7)]
		if big && r.Intn(8) == 0 {
			nsub = r.Intn(800)
		}
		rec := RandRecord(r, types, nsub)
		w := len(rec.Wire())
		if size+w > limit {
			if !big {
				break
			}
			for len(rec.Subs) > 0 && size+w > limit {
				rec.Subs = rec.Subs[:len(rec.Subs)/2]
				w = len(rec.Wire())
			}
			if size+w > limit {
				break
			}
		}
		size += w
		p.Records = append(p.Records, rec)
	}
	return p
}
