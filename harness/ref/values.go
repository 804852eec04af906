package ref

// Subrecord types.
const (
	TResponse = 0
	TTerm     = 1
	TDisp     = 5
	TAuth     = 7
	TResult   = 9
	TPlus     = 15
	TPos      = 16
	TExtPos   = 17
	TAdSens   = 18
	TCounters = 19
	TState20  = 20
	TState    = 21
	TAbsAn    = 24
	TAbsCntr  = 25
	TLiquid   = 27
)

// AllTypes lists every supported subrecord type.
var AllTypes = []byte{TResponse, TTerm, TDisp, TAuth, TResult, TPlus, TPos, TExtPos, TAdSens, TCounters, TState20, TState, TAbsAn, TAbsCntr, TLiquid}

// Pos is EGTS_SR_POS_DATA.
type Pos struct {
	NTM, LAT, LON                          uint32
	ALTE, LOHS, LAHS, MV, BB, CS, FIX, VLD byte
	SPD                                    uint16 // 14 bit, 0.1 km/h
	DIRH, ALTS                             byte
	DIR                                    byte
	ODM                                    uint32 // 24 bit
	DIN, SRC                               byte
	ALT                                    uint32 // 24 bit, if ALTE
	SRCD                                   []byte // none or two bytes
}

func (v *Pos) Flags() byte {
	return v.ALTE<<7 | v.LOHS<<6 | v.LAHS<<5 | v.MV<<4 | v.BB<<3 | v.CS<<2 | v.FIX<<1 | v.VLD
}

func (v *Pos) Wire() []byte {
	var b []byte
	b = le32(b, v.NTM)
	b = le32(b, v.LAT)
	b = le32(b, v.LON)
	b = append(b, v.Flags())
	b = le16(b, uint16(v.DIRH)<<15|uint16(v.ALTS)<<14|v.SPD&0x3FFF)
	b = append(b, v.DIR)
	b = le24(b, v.ODM)
	b = append(b, v.DIN, v.SRC)
	if v.ALTE == 1 {
		b = le24(b, v.ALT)
	}
	return append(b, v.SRCD...)
}

// ExtPos is EGTS_SR_EXT_POS_DATA.
type ExtPos struct {
	NSFE, SFE, PFE, HFE, VFE byte
	VDOP, HDOP, PDOP         uint16
	SAT                      byte
	NS                       uint16
}

func (v *ExtPos) Wire() []byte {
	b := []byte{v.NSFE<<4 | v.SFE<<3 | v.PFE<<2 | v.HFE<<1 | v.VFE}
	if v.VFE == 1 {
		b = le16(b, v.VDOP)
	}
	if v.HFE == 1 {
		b = le16(b, v.HDOP)
	}
	if v.PFE == 1 {
		b = le16(b, v.PDOP)
	}
	if v.SFE == 1 {
		b = append(b, v.SAT)
	}
	if v.NSFE == 1 {
		b = le16(b, v.NS)
	}
	return b
}

// AdSens is EGTS_SR_AD_SENSORS_DATA. Bit i of a mask stands for input i+1.
type AdSens struct {
	DIOE, DOUT, ASFE byte
	ADIO             [8]byte
	ANS              [8]uint32 // 24 bit
}

func (v *AdSens) Wire() []byte {
	b := []byte{v.DIOE, v.DOUT, v.ASFE}
	for i := 0; i < 8; i++ {
		if v.DIOE>>i&1 == 1 {
			b = append(b, v.ADIO[i])
		}
	}
	for i := 0; i < 8; i++ {
		if v.ASFE>>i&1 == 1 {
			b = le24(b, v.ANS[i])
		}
	}
	return b
}

// Counters is EGTS_SR_COUNTERS_DATA.
type Counters struct {
	CFE byte
	CN  [8]uint32 // 24 bit
}

func (v *Counters) Wire() []byte {
	b := []byte{v.CFE}
	for i := 0; i < 8; i++ {
		if v.CFE>>i&1 == 1 {
			b = le24(b, v.CN[i])
		}
	}
	return b
}

// State is EGTS_SR_STATE_DATA.
type State struct {
	ST, MPSV, BBV, IBV byte
	NMS, IBU, BBU      byte
}

func (v *State) Wire() []byte {
	return []byte{v.ST, v.MPSV, v.BBV, v.IBV, v.NMS<<2 | v.IBU<<1 | v.BBU}
}

// AbsAn is EGTS_SR_ABS_AN_SENS_DATA.
type AbsAn struct {
	ASN byte
	ASV uint32 // 24 bit
}

func (v *AbsAn) Wire() []byte { return le24([]byte{v.ASN}, v.ASV) }

// AbsCntr is EGTS_SR_ABS_CNTR_DATA.
type AbsCntr struct {
	CN  byte
	CNV uint32 // 24 bit
}

func (v *AbsCntr) Wire() []byte { return le24([]byte{v.CN}, v.CNV) }

// Liquid is EGTS_SR_LIQUID_LEVEL_SENSOR.
type Liquid struct {
	LLSEF, LLSVU, RDF, LLSN byte // 1,2,1,3 bits
	MADDR                   uint16
	LLSD                    uint32
}

func (v *Liquid) Wire() []byte {
	return le32(le16([]byte{v.LLSEF<<6 | v.LLSVU<<4 | v.RDF<<3 | v.LLSN}, v.MADDR), v.LLSD)
}

// Term is EGTS_SR_TERM_IDENTITY. Strings are NUL padded to their fixed width.
type Term struct {
	TID                                              uint32
	MNE, BSE, NIDE, SSRA, LNGCE, IMSIE, IMEIE, HDIDE byte
	HDID                                             uint16
	IMEI, IMSI, LNGC                                 string
	NID                                              [3]byte
	BS                                               uint16
	MSISDN                                           string
}

func pad(s string, n int) []byte {
	b := make([]byte, n)
	copy(b, s)
	return b
}

func (v *Term) Wire() []byte {
	b := le32(nil, v.TID)
	b = append(b, v.MNE<<7|v.BSE<<6|v.NIDE<<5|v.SSRA<<4|v.LNGCE<<3|v.IMSIE<<2|v.IMEIE<<1|v.HDIDE)
	if v.HDIDE == 1 {
		b = le16(b, v.HDID)
	}
	if v.IMEIE == 1 {
		b = append(b, pad(v.IMEI, 15)...)
	}
	if v.IMSIE == 1 {
		b = append(b, pad(v.IMSI, 16)...)
	}
	if v.LNGCE == 1 {
		b = append(b, pad(v.LNGC, 3)...)
	}
	if v.NIDE == 1 {
		b = append(b, v.NID[:]...)
	}
	if v.BSE == 1 {
		b = le16(b, v.BS)
	}
	if v.MNE == 1 {
		b = append(b, pad(v.MSISDN, 15)...)
	}
	return b
}

// Auth is EGTS_SR_AUTH_INFO.
type Auth struct{ UNM, UPSW, SS string }

func (v *Auth) Wire() []byte {
	b := append([]byte(v.UNM), 0)
	b = append(append(b, v.UPSW...), 0)
	if v.SS != "" {
		b = append(append(b, v.SS...), 0)
	}
	return b
}

// Disp is EGTS_SR_DISPATCHER_IDENTITY.
type Disp struct {
	DT   byte
	DID  uint32
	DSCR string
}

func (v *Disp) Wire() []byte { return append(le32([]byte{v.DT}, v.DID), v.DSCR...) }

// Result is EGTS_SR_RESULT_CODE.
type Result struct{ RCD byte }

func (v *Result) Wire() []byte { return []byte{v.RCD} }

// Response is EGTS_SR_RECORD_RESPONSE.
type Response struct {
	CRN uint16
	RST byte
}

func (v *Response) Wire() []byte { return append(le16(nil, v.CRN), v.RST) }
