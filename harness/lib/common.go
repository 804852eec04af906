// Package lib holds the checks of the codec, libs/egts.
package lib

import (
	"encoding/hex"
	"fmt"
	"math/rand"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/conv"
	"verif/harness/h"
	"verif/harness/ref"
)

// NewSection makes an empty structure for a subrecord type.
func NewSection(t byte) egts.BinaryData {
	switch t {
	case ref.TResponse:
		return &egts.SrResponse{}
	case ref.TTerm:
		return &egts.SrTermIdentity{}
	case ref.TDisp:
		return &egts.SrDispatcherIdentity{}
	case ref.TAuth:
		return &egts.SrAuthInfo{}
	case ref.TResult:
		return &egts.SrResultCode{}
	case ref.TPlus:
		return &egts.StorageRecord{}
	case ref.TPos:
		return &egts.SrPosData{}
	case ref.TExtPos:
		return &egts.SrExtPosData{}
	case ref.TAdSens:
		return &egts.SrAdSensorsData{}
	case ref.TCounters:
		return &egts.SrCountersData{}
	case ref.TState20, ref.TState:
		return &egts.SrStateData{}
	case ref.TAbsAn:
		return &egts.SrAbsAnSensData{}
	case ref.TAbsCntr:
		return &egts.SrAbsCntrData{}
	case ref.TLiquid:
		return &egts.SrLiquidLevelSensor{}
	}
	panic("lib: no section for type")
}

func hexs(b []byte) string {
	if len(b) > 4096 {
		return hex.EncodeToString(b[:4096]) + fmt.Sprintf("... (%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func bytesCase(kind string, b []byte) map[string]any {
	return map[string]any{"kind": kind, "len": len(b), "hex": hex.EncodeToString(b)}
}

// gen makes the packet for a case; every subrecord type gets its turn as the only one.
func gen(r *rand.Rand, i int) *ref.Packet {
	switch {
	case i%40 == 39:
		return ref.RandPacket(r, ref.AllTypes, true)
	case i%2 == 0:
		t := ref.AllTypes[i/2%len(ref.AllTypes)]
		p := ref.RandHeader(r)
		if r.Intn(4) == 0 {
			p.PT, p.RPID, p.Result = ref.PtResponse, uint16(ref.Bound(r, 16)), byte(ref.Bound(r, 8))
		}
		p.Records = []ref.Record{ref.RandRecord(r, []byte{t}, 1+r.Intn(2))}
		return p
	default:
		return ref.RandPacket(r, ref.AllTypes, false)
	}
}

// evenSpeed makes the speeds of a packet representable by the encoder (whole km/h).
func evenSpeed(p *ref.Packet) *ref.Packet { return conv.Lossy(p) }

func typeSig(p *ref.Packet) string {
	s := fmt.Sprintf("%d/%d/%d:", p.PT, p.RTE, len(p.Records))
	for i := range p.Records {
		s += fmt.Sprintf("%02x", p.Records[i].Flags())
		for _, x := range p.Records[i].Subs {
			s += fmt.Sprintf("-%d", x.Type)
		}
		s += ";"
		if len(s) > 200 {
			break
		}
	}
	return s
}

var Checks = map[string]func(*h.Run){"L01": L01, "L02": L02, "L03": L03, "L04": L04, "L05": L05, "L06": L06, "L07": L07, "L08": L08}

type pkgT = egts.Package
