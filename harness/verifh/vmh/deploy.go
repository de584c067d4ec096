package vmh

import (
	"encoding/binary"
	"encoding/hex"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// laid puts pieces into memory one after another and returns their offsets.
func (in *Inst) laid(pieces ...[]byte) []int32 {
	offs := make([]int32, len(pieces))
	o := 0
	for i, p := range pieces {
		in.Put(o, p)
		offs[i] = int32(o)
		o += len(p)
	}
	return offs
}

func lens(args [][]byte) []byte {
	b := make([]byte, 4*len(args))
	for i, a := range args {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(len(a)))
	}
	return b
}

func flat(args [][]byte) []byte {
	var r []byte
	for _, a := range args {
		r = append(r, a...)
	}
	return r
}

// Create calls createContract and returns its answer and the address.
func (in *Inst) Create(gas int64, value32, code, meta []byte, args ...[]byte) (int32, []byte) {
	r := int32(-2)
	var addr []byte
	in.Do(func() {
		o := in.laid(Zero32(), value32, code, meta, lens(args), flat(args))
		r = elrondapi.XCreateContract(in.Ctx(), gas, o[1], o[2], o[3], int32(len(code)), o[0], int32(len(args)), o[4], o[5])
		addr = append([]byte{}, in.Mem.B[:32]...)
	})
	return r, addr
}

// CreateFrom calls deployFromSourceContract.
func (in *Inst) CreateFrom(gas int64, value32, source, meta []byte, args ...[]byte) (int32, []byte) {
	r := int32(-2)
	var addr []byte
	in.Do(func() {
		o := in.laid(Zero32(), value32, source, meta, lens(args), flat(args))
		r = elrondapi.XDeployFromSourceContract(in.Ctx(), gas, o[1], o[2], o[3], o[0], int32(len(args)), o[4], o[5])
		addr = append([]byte{}, in.Mem.B[:32]...)
	})
	return r, addr
}

// Upgrade calls upgradeContract, which ends the calling contract.
func (in *Inst) Upgrade(gas int64, to, value32, code, meta []byte, args ...[]byte) {
	in.Do(func() {
		o := in.laid(to, value32, code, meta, lens(args), flat(args))
		elrondapi.XUpgradeContract(in.Ctx(), o[0], gas, o[1], o[2], o[3], int32(len(code)), int32(len(args)), o[4], o[5])
	})
}

// UpgradeFrom calls upgradeFromSourceContract.
func (in *Inst) UpgradeFrom(gas int64, to, value32, source, meta []byte, args ...[]byte) {
	in.Do(func() {
		o := in.laid(to, value32, source, meta, lens(args), flat(args))
		elrondapi.XUpgradeFromSourceContract(in.Ctx(), o[0], gas, o[1], o[2], o[3], int32(len(args)), o[4], o[5])
	})
}

// Async calls asyncCall, which ends the calling contract.
func (in *Inst) Async(to, value32, data []byte) {
	in.Do(func() {
		o := in.laid(to, value32, data)
		elrondapi.XAsyncCall(in.Ctx(), o[0], o[1], o[2], int32(len(data)))
	})
}

// UpgradeData is the call data of an upgrade.
func UpgradeData(code, meta []byte, args ...[]byte) []byte {
	s := "upgradeContract@" + hex.EncodeToString(code) + "@" + hex.EncodeToString(meta)
	for _, a := range args {
		s += "@" + hex.EncodeToString(a)
	}
	return []byte(s)
}

// CreateInput is a deployment by the user.
func CreateInput(code, meta []byte, gas uint64, args ...[]byte) *vmcommon.ContractCreateInput {
	return &vmcommon.ContractCreateInput{
		VMInput: vmcommon.VMInput{
			CallerAddr: User, Arguments: args, CallValue: big.NewInt(0), GasPrice: 1, GasProvided: gas,
			OriginalTxHash: []byte("originalTx"), CurrentTxHash: []byte("currentTx"), PrevTxHash: []byte("prevTx"),
		},
		ContractCode: code, ContractCodeMetadata: meta,
	}
}
