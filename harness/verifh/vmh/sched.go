package vmh

import (
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// Sched is a gas schedule with some symbolic prices; the others are 1.
type Sched struct {
	M    config.GasScheduleMap
	Bits uint
}

// NewSched is a schedule with all prices 1.
func NewSched() *Sched { return &Sched{M: config.MakeGasMap(1, 1), Bits: 32} }

// Sym makes a price symbolic: any value from 1 that fits the number of bits.
func (s *Sched) Sym(section, entry string) uint64 {
	var v uint64
	switch s.Bits {
	case 8:
		v = uint64(nd.U8(entry))
	case 16:
		v = uint64(nd.U16(entry))
	default:
		v = uint64(nd.U32(entry))
	}
	nd.Assume(v >= 1)
	s.M[section][entry] = v
	return v
}

// Names of sections.
const (
	Base   = "BaseOperationCost"
	Elrond = "ElrondAPICost"
	Bigint = "BigIntAPICost"
	Crypt  = "CryptoAPICost"
)
