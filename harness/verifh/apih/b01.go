// Package apih checks the operations of the contract API one by one.
package apih

import (
	"math/big"
	"unsafe"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// inside runs f as the body of a contract function of a fresh host.
func inside(o vmh.Opt, args [][]byte, value *big.Int, f func(e *vmh.Env, in *vmh.Inst)) (*vmh.Env, *vmcommon.VMOutput) {
	e := vmh.NewEnv(o)
	return e, insideEnv(e, args, value, f)
}

func insideEnv(e *vmh.Env, args [][]byte, value *big.Int, f func(e *vmh.Env, in *vmh.Inst)) *vmcommon.VMOutput {
	e.A.Funcs["f"] = func(in *vmh.Inst) { f(e, in) }
	call := vmh.Input(vmh.Alice, "f", 1<<50, args...)
	if value != nil {
		call.CallValue = value
	}
	out, err := e.Call(call)
	vmh.NoCrash(out, err)
	return out
}

// binop is a big-integer operation with a destination and one or two operands.
type binop struct {
	name string
	run  func(c unsafe.Pointer, d, a, b int32)
	// want is the exact result, or nil if the operation is undefined there.
	want func(a, b *big.Int) *big.Int
}

func n() *big.Int { return new(big.Int) }

// truncated and Euclidean division by their defining equations.
func euclid(a, b *big.Int) (*big.Int, *big.Int) {
	q, r := n().QuoRem(a, b, n())
	if r.Sign() < 0 {
		if b.Sign() > 0 {
			q = n().Sub(q, big.NewInt(1))
			r = n().Add(r, b)
		} else {
			q = n().Add(q, big.NewInt(1))
			r = n().Sub(r, b)
		}
	}
	return q, r
}

func arith() []binop {
	nz := func(f func(a, b *big.Int) *big.Int) func(a, b *big.Int) *big.Int {
		return func(a, b *big.Int) *big.Int {
			if b.Sign() == 0 {
				return nil
			}
			return f(a, b)
		}
	}
	return []binop{
		{"bigIntAdd", api.XBigIntAdd, func(a, b *big.Int) *big.Int { return n().Add(a, b) }},
		{"bigIntSub", api.XBigIntSub, func(a, b *big.Int) *big.Int { return n().Sub(a, b) }},
		{"bigIntMul", api.XBigIntMul, func(a, b *big.Int) *big.Int { return n().Mul(a, b) }},
		{"bigIntTDiv", api.XBigIntTDiv, nz(func(a, b *big.Int) *big.Int { return n().Quo(a, b) })},
		{"bigIntTMod", api.XBigIntTMod, nz(func(a, b *big.Int) *big.Int { return n().Rem(a, b) })},
		{"bigIntEDiv", api.XBigIntEDiv, nz(func(a, b *big.Int) *big.Int { q, _ := euclid(a, b); return q })},
		{"bigIntEMod", api.XBigIntEMod, nz(func(a, b *big.Int) *big.Int { _, r := euclid(a, b); return r })},
	}
}

func bitwise() []binop {
	nn := func(f func(a, b *big.Int) *big.Int) func(a, b *big.Int) *big.Int {
		return func(a, b *big.Int) *big.Int {
			if a.Sign() < 0 || b.Sign() < 0 {
				return nil
			}
			return f(a, b)
		}
	}
	return []binop{
		{"bigIntAnd", api.XBigIntAnd, nn(func(a, b *big.Int) *big.Int { return n().And(a, b) })},
		{"bigIntOr", api.XBigIntOr, nn(func(a, b *big.Int) *big.Int { return n().Or(a, b) })},
		{"bigIntXor", api.XBigIntXor, nn(func(a, b *big.Int) *big.Int { return n().Xor(a, b) })},
	}
}

func unary() []binop {
	return []binop{
		{"bigIntAbs", func(c unsafe.Pointer, d, a, _ int32) { api.XBigIntAbs(c, d, a) }, func(a, _ *big.Int) *big.Int { return n().Abs(a) }},
		{"bigIntNeg", func(c unsafe.Pointer, d, a, _ int32) { api.XBigIntNeg(c, d, a) }, func(a, _ *big.Int) *big.Int { return n().Neg(a) }},
		{"bigIntNot", func(c unsafe.Pointer, d, a, _ int32) { api.XBigIntNot(c, d, a) }, func(a, _ *big.Int) *big.Int {
			if a.Sign() < 0 {
				return nil
			}
			return n().Sub(n().Neg(a), big.NewInt(1))
		}},
	}
}

// check runs one operation on every aliasing of its handles. Handles 1 and 2
// hold any values of the given width, handle 3 another, 9 is unknown.
func check(ops []binop, operands, bits int) {
	o := ops[nd.Choice("op", len(ops))]
	hs := []int32{1, 2, 3, 9}
	d, a := hs[nd.Choice("dest", 4)], hs[nd.Choice("a", 4)]
	b := int32(1)
	if operands == 2 {
		b = hs[nd.Choice("b", 4)]
	}
	x, y := nd.BigSigned("x", bits), nd.BigSigned("y", bits)
	vals := map[int32]*big.Int{1: x, 2: y, 3: big.NewInt(77), 9: big.NewInt(0)}
	want := o.want(n().Set(vals[a]), n().Set(vals[b]))
	ran := false
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		bi := e.H.BigInt()
		for _, h := range hs[:3] {
			bi.GetOne(h).Set(vals[h])
		}
		in.Do(func() { o.run(in.Ctx(), d, a, b) })
		ran = in.BP == 0
		if !ran {
			return
		}
		if want == nil {
			nd.Fail("an undefined operation fails the execution: " + o.name)
		}
		nd.Reach("done")
		nd.Assert(bi.GetOne(d).Cmp(want) == 0, "the destination holds the exact result: "+o.name)
		for _, h := range hs {
			if h != d {
				nd.Assert(bi.GetOne(h).Cmp(vals[h]) == 0, "every other handle keeps its value: "+o.name)
			}
		}
	})
	if want == nil {
		nd.Reach("undefined")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "an undefined operation fails the execution: "+o.name)
	} else {
		nd.Assert(ran && out.ReturnCode == vmcommon.Ok, "a defined operation succeeds: "+o.name)
	}
}

// B01_Linear is addition and subtraction of 64-bit operands.
func B01_Linear() { check(arith()[:2], 2, 64) }

// B01_Multiply is multiplication.
func B01_Multiply() { check(arith()[2:3], 2, 24+8*nd.Tier()) }

// B01_Divide is every division and remainder.
func B01_Divide() { check(arith()[3:], 2, 10+6*nd.Tier()) }

// B01_Bitwise is the bitwise operations.
func B01_Bitwise() { check(bitwise(), 2, 64) }

// B01_Unary is the operations of one operand.
func B01_Unary() { check(unary(), 1, 64) }

// B01_Shift is both shifts, by any number of bits up to a bound.
func B01_Shift() {
	left := nd.Bool("left")
	hs := []int32{1, 2, 3, 9}
	d, a := hs[nd.Choice("dest", 4)], hs[nd.Choice("a", 4)]
	x := nd.BigSigned("x", 64)
	vals := map[int32]*big.Int{1: x, 2: big.NewInt(-5), 3: big.NewInt(77), 9: big.NewInt(0)}
	shifts := []int32{-2147483648, -1, 0, 1, 7, 8, 63, 64, 130, 1024}
	s := shifts[nd.Choice("bits", len(shifts))]
	v := n().Set(vals[a])
	bad := v.Sign() < 0 || s < 0
	var want *big.Int
	if !bad {
		p := n().Lsh(big.NewInt(1), uint(s))
		if left {
			want = n().Mul(v, p)
		} else {
			want = n().Quo(v, p)
		}
	}
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		bi := e.H.BigInt()
		for _, h := range hs[:3] {
			bi.GetOne(h).Set(vals[h])
		}
		in.Do(func() {
			if left {
				api.XBigIntShl(in.Ctx(), d, a, s)
			} else {
				api.XBigIntShr(in.Ctx(), d, a, s)
			}
		})
		if in.BP != 0 {
			return
		}
		nd.Assert(!bad, "a shift by or of a negative number fails the execution")
		if bad {
			return
		}
		nd.Reach("done")
		nd.Assert(bi.GetOne(d).Cmp(want) == 0, "a shift is exact")
		for _, h := range hs {
			if h != d {
				nd.Assert(bi.GetOne(h).Cmp(vals[h]) == 0, "a shift leaves every other handle alone")
			}
		}
	})
	if bad {
		nd.Reach("undefined")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a shift by or of a negative number fails the execution")
	} else {
		nd.Assert(out.ReturnCode == vmcommon.Ok, "a shift succeeds")
	}
}

// B01_Compare is sign and comparison.
func B01_Compare() {
	x, y := nd.BigSigned("x", 64), nd.BigSigned("y", 64)
	hs := []int32{1, 2, 9}
	a, b := hs[nd.Choice("a", 3)], hs[nd.Choice("b", 3)]
	vals := map[int32]*big.Int{1: x, 2: y, 9: big.NewInt(0)}
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		bi := e.H.BigInt()
		bi.GetOne(1).Set(x)
		bi.GetOne(2).Set(y)
		d := n().Sub(vals[a], vals[b]).Sign()
		nd.Assert(api.XBigIntCmp(in.Ctx(), a, b) == int32(d), "comparison is exact")
		s := int32(0)
		if vals[a].Sign() < 0 {
			s = -1
		} else if vals[a].Sign() > 0 {
			s = 1
		}
		nd.Assert(api.XBigIntSign(in.Ctx(), a) == s, "the sign is exact")
		for _, h := range hs {
			nd.Assert(bi.GetOne(h).Cmp(vals[h]) == 0, "a comparison changes no handle")
		}
		nd.Reach("done")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a comparison succeeds")
}

// B01_Handles is the handles new numbers get.
func B01_Handles() {
	h1, h2 := nd.I32("h1"), nd.I32("h2")
	nd.Assume(h1 >= -2 && h1 < 6 && h2 >= -2 && h2 < 6)
	v := nd.I64("v")
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		n1 := api.XBigIntNew(c, v)
		api.XBigIntSetInt64(c, h1, 11)
		api.XBigIntSign(c, h2) // makes it live with value zero
		n2 := api.XBigIntNew(c, 22)
		n3 := api.XBigIntNew(c, -33)
		nd.Assert(n2 != h1 && n2 != h2 && n2 != n1 && n3 != n2 && n3 != n1 && n3 != h1 && n3 != h2, "a new handle is none of the live ones")
		want := v
		if n1 == h1 {
			want = 11
		}
		nd.Assert(api.XBigIntGetInt64(c, n1) == want, "a new number keeps the value it was made with")
		nd.Assert(api.XBigIntGetInt64(c, h1) == 11, "a number set under a chosen handle stays there")
		if h2 != h1 && h2 != n1 {
			nd.Assert(api.XBigIntGetInt64(c, h2) == 0, "an unknown handle reads as zero")
		}
		nd.Assert(api.XBigIntGetInt64(c, n2) == 22 && api.XBigIntGetInt64(c, n3) == -33, "new numbers keep their values")
		nd.Reach("done")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "making numbers succeeds")
}

// B01_Chain is two operations in a row, the second on the result of the first.
func B01_Chain() {
	ops := append(append(arith()[:2], bitwise()...), unary()[:2]...)
	o1, o2 := ops[nd.Choice("op1", len(ops))], ops[nd.Choice("op2", len(ops))]
	x, y := nd.Big("x", 32), nd.Big("y", 32)
	d := []int32{1, 2, 3}[nd.Choice("dest", 3)]
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		bi := e.H.BigInt()
		bi.GetOne(1).Set(x)
		bi.GetOne(2).Set(y)
		vals := map[int32]*big.Int{1: x, 2: y, 3: big.NewInt(0)}
		r := o1.want(vals[1], vals[2])
		o1.run(in.Ctx(), d, 1, 2)
		nd.Assert(bi.GetOne(d).Cmp(r) == 0, "the first result is exact: "+o1.name)
		vals[d] = n().Set(r)
		r2 := o2.want(vals[d], vals[2])
		in.Do(func() { o2.run(in.Ctx(), 2, d, 2) })
		if r2 == nil || in.BP != 0 {
			nd.Assert(r2 == nil && in.BP != 0, "exactly the undefined operations fail: "+o2.name)
			return
		}
		if d != 2 {
			nd.Assert(bi.GetOne(d).Cmp(vals[d]) == 0, "the operand keeps its value: "+o2.name)
		}
		nd.Assert(bi.GetOne(2).Cmp(r2) == 0, "the second result is exact: "+o2.name)
		nd.Reach("done")
	})
	_ = out
}
