package vmh

import (
	"encoding/binary"
	"encoding/hex"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
)

// TokenExec calls transferESDTExecute or, if nft is set, transferESDTNFTExecute.
func (in *Inst) TokenExec(to, token, value32 []byte, nft bool, nonce, gas int64, fn string, args ...[]byte) int32 {
	r := int32(-2)
	in.Do(func() {
		o := in.laid(to, value32, token, []byte(fn), lens(args), flat(args))
		if nft {
			r = elrondapi.XTransferESDTNFTExecute(in.Ctx(), o[0], o[2], int32(len(token)), o[1], nonce, gas, o[3], int32(len(fn)), int32(len(args)), o[4], o[5])
		} else {
			r = elrondapi.XTransferESDTExecute(in.Ctx(), o[0], o[2], int32(len(token)), o[1], gas, o[3], int32(len(fn)), int32(len(args)), o[4], o[5])
		}
	})
	return r
}

// CallData joins a function name and its arguments.
func CallData(fn string, args ...[]byte) []byte {
	s := fn
	for _, a := range args {
		s += "@" + hex.EncodeToString(a)
	}
	return []byte(s)
}

// U64Bytes is the minimal big-endian form.
func U64Bytes(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}
