// Package mathh: exactness of the overflow-guarded arithmetic.
package mathh

import (
	"math"
	"math/big"

	vmath "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// M01_AddU64 checks saturation and the error flag for every pair.
func M01_AddU64() {
	a, b := nd.U64("a"), nd.U64("b")
	sum, carry := a+b, a+b < a
	r := vmath.AddUint64(a, b)
	s, err := vmath.AddUint64WithErr(a, b)
	nd.Observe("r", r)
	if carry {
		nd.Reach("overflow")
		nd.Assert(r == math.MaxUint64, "AddUint64 saturates on overflow")
		nd.Assert(err != nil, "AddUint64WithErr reports an overflow")
	} else {
		nd.Reach("exact")
		nd.Assert(r == sum, "AddUint64 is exact without overflow")
		nd.Assert(err == nil && s == sum, "AddUint64WithErr is exact without overflow")
	}
}

// M01_MulU64 checks multiplication against 128-bit arithmetic.
func M01_MulU64() {
	a, b := nd.U64("a"), nd.U64("b")
	p := new(big.Int).Mul(new(big.Int).SetUint64(a), new(big.Int).SetUint64(b))
	r := vmath.MulUint64(a, b)
	if p.IsUint64() {
		nd.Reach("exact")
		nd.Assert(r == p.Uint64(), "MulUint64 is exact without overflow")
	} else {
		nd.Reach("overflow")
		nd.Assert(r == math.MaxUint64, "MulUint64 saturates on overflow")
	}
}
