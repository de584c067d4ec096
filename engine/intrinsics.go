package main

// Models of the functions outside the code under test (and of the nd API).

import (
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(in *Interp, args []value) value

var table = map[string]intrinsicFn{}

// impure wraps an intrinsic with effects: not allowed while speculating.
func impure(f intrinsicFn) intrinsicFn {
	return func(in *Interp, args []value) value {
		in.noSpec()
		return f(in, args)
	}
}

func reg(name string, f intrinsicFn) {
	if _, dup := table[name]; dup {
		panic("duplicate intrinsic " + name)
	}
	table[name] = f
}

type hashRec struct {
	kind string
	in   []*Term
	out  []*Term
}

type fileModel struct {
	data []*Term
	pos  int
}

func noResult(in *Interp, args []value) value { return nil }

func (p *Program) intrinsic(fn *ssa.Function, name string) func(*Interp, []value) value {
	if v, ok := p.intr.Load(fn); ok {
		return v.(func(*Interp, []value) value)
	}
	f := p.findIntrinsic(fn, name)
	var g func(*Interp, []value) value
	if f != nil {
		g = f
	}
	p.intr.Store(fn, g)
	return g
}

func (p *Program) findIntrinsic(fn *ssa.Function, name string) intrinsicFn {
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if f, ok := table[name]; ok {
		return f
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	short := name[strings.LastIndex(name, ".")+1:]
	if (pkg == "sync/atomic" || pkg == "internal/runtime/atomic") && fn.Signature.Recv() == nil {
		if f := atomicIntrinsic(short); f != nil {
			return f
		}
	}
	switch pkg {
	case "github.com/ElrondNetwork/elrond-go-logger":
		if fn.Name() == "init" {
			return nil
		}
		res := fn.Signature.Results()
		if short == "GetOrCreate" {
			return func(in *Interp, args []value) value {
				return iface{t: types.Typ[types.Int], v: opaque{"logger", nil}}
			}
		}
		return func(in *Interp, args []value) value {
			if res.Len() == 0 {
				return nil
			}
			return zero(res)
		}
	}
	if fn.Blocks == nil && strings.HasPrefix(short, "_C") {
		return nil
	}
	return nil
}

func isZeroResult(sig *types.Signature) value {
	if sig.Results().Len() == 0 {
		return nil
	}
	return zero(sig.Results())
}

// invokeIntrinsic handles interface calls on modelled foreign values.
func (in *Interp) invokeIntrinsic(call *ssa.CallCommon, recv iface) *nativeFn {
	o, ok := recv.v.(opaque)
	if !ok {
		return nil
	}
	name := call.Method.Name()
	switch o.kind {
	case "logger":
		sig := call.Signature()
		return &nativeFn{name, func(in *Interp, args []value) value { return isZeroResult(sig) }}
	case "rtype":
		return &nativeFn{name, func(in *Interp, args []value) value { return in.rtypeCall(o.data.(types.Type), name, args[1:]) }}
	case "hash":
		h := o.data.(*hashState)
		return &nativeFn{name, func(in *Interp, args []value) value { return in.hashCall(h, name, args[1:]) }}
	}
	in.unsupported("method " + name + " of a modelled " + o.kind)
	return nil
}

// ---------- helpers

func (in *Interp) mkErr(s string) value {
	p := new(value)
	*p = structure{Str{c: s}}
	return iface{in.prog.errorsStringPtr, p}
}

func (in *Interp) mkErrStr(s Str) value {
	p := new(value)
	*p = structure{s}
	return iface{in.prog.errorsStringPtr, p}
}

func (in *Interp) bigArg(v value) bigV {
	p, ok := v.(*value)
	if !ok {
		in.unsupported(fmt.Sprintf("big.Int pointer expected, got %T", v))
	}
	if p == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	b, ok := (*p).(bigV)
	if !ok {
		in.unsupported(fmt.Sprintf("big.Int content %T", *p))
	}
	return b
}

func (in *Interp) setBig(dst value, v bigV) value {
	p := dst.(*value)
	if p == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	in.store(p, v)
	return p
}

func (in *Interp) newBig(v bigV) value {
	p := new(value)
	*p = v
	if in.spec > 0 {
		in.specAlloc[p] = in.arm
	}
	return p
}

func (in *Interp) bigIf(c *Term, x, y bigV) bigV {
	a, b := in.bigAlign(x, y)
	return in.normBig(in.ctx.Ite(c, a, b))
}

func (in *Interp) divCheck(y bigV) {
	if in.decide(in.ctx.Eq(y.t, KB(y.t.w, bigZero))) {
		in.goPanic(iface{t: types.Typ[types.String], v: Str{c: "division by zero"}})
	}
}

func (in *Interp) bigQuoRem(x, y bigV) (bigV, bigV) {
	in.divCheck(y)
	if x.t.isConst() && y.t.isConst() {
		q, r := new(big.Int).QuoRem(x.t.csigned(), y.t.csigned(), new(big.Int))
		return bigConst(q), bigConst(r)
	}
	w := x.t.w
	if y.t.w > w {
		w = y.t.w
	}
	w++
	a, b := in.ctx.SExt(x.t, w), in.ctx.SExt(y.t, w)
	if signKnown(x.t) == 1 && signKnown(y.t) == 1 {
		return in.normBig(in.ctx.UDiv(a, b)), in.normBig(in.ctx.URem(a, b))
	}
	return in.normBig(in.ctx.SDiv(a, b)), in.normBig(in.ctx.SRem(a, b))
}

func (in *Interp) bigDivMod(x, y bigV) (bigV, bigV) {
	q, r := in.bigQuoRem(x, y)
	neg := in.bigIsNeg(r)
	if neg.isConst() && neg.k == 0 {
		return q, r
	}
	yn := in.bigIsNeg(y)
	one := bigConst(bigOne)
	q2 := in.bigIf(yn, in.bigAdd(q, one), in.bigSub(q, one))
	r2 := in.bigIf(yn, in.bigSub(r, y), in.bigAdd(r, y))
	return in.bigIf(neg, q2, q), in.bigIf(neg, r2, r)
}

func (in *Interp) bigFits(x bigV, lo, hi *big.Int) *Term {
	a, b := in.bigAlign(bigConst(lo), x)
	t1 := in.ctx.SLE(a, b)
	a, b = in.bigAlign(x, bigConst(hi))
	return in.ctx.And(t1, in.ctx.SLE(a, b))
}

func (in *Interp) bigBitLen(x bigV) *Term {
	a := in.bigAbs(x).t
	if a.isConst() {
		return K(64, uint64(a.csigned().BitLen()))
	}
	r := K(64, 0)
	for i := int32(0); i < a.w; i++ {
		r = in.ctx.Ite(in.ctx.Eq(in.ctx.Extract(a, i, i), K(1, 1)), K(64, uint64(i)+1), r)
	}
	return r
}

func (in *Interp) u64v(v value) *Term { return in.intTerm(v) }

func (in *Interp) str(v value) Str {
	s, ok := v.(Str)
	if !ok {
		in.unsupported(fmt.Sprintf("string expected, got %T", v))
	}
	return s
}

func (in *Interp) parseBig(s Str, base int) (bigV, *Term) {
	if s.t == nil {
		v, ok := new(big.Int).SetString(s.c, base)
		if !ok {
			return zeroBig(), tFalse
		}
		return bigConst(v), tTrue
	}
	if base != 2 && base != 10 && base != 16 {
		in.unsupported("big.Int.SetString of a symbolic string")
	}
	c := in.ctx
	b := s.bytes()
	neg := false
	if len(b) > 0 {
		if in.decide(c.Eq(b[0], K(8, '-'))) {
			neg = true
			b = b[1:]
		} else if in.decide(c.Eq(b[0], K(8, '+'))) {
			b = b[1:]
		}
	}
	if len(b) == 0 {
		return zeroBig(), tFalse
	}
	acc := zeroBig()
	for _, ch := range b {
		d, ok := in.digit(ch, base)
		if !in.decide(ok) {
			return zeroBig(), tFalse
		}
		acc = in.bigAdd(in.bigMul(acc, bigConst(big.NewInt(int64(base)))), in.normBig(c.ZExt(d, 9)))
	}
	if neg {
		acc = in.bigNeg(acc)
	}
	return acc, tTrue
}

// digit gives the value of a digit character and whether it is one.
func (in *Interp) digit(ch *Term, base int) (*Term, *Term) {
	c := in.ctx
	rng := func(lo, hi byte) *Term {
		return c.And(c.ULE(K(8, uint64(lo)), ch), c.ULE(ch, K(8, uint64(hi))))
	}
	isd := rng('0', '9')
	dv := c.Sub(ch, K(8, '0'))
	if base == 10 {
		return dv, isd
	}
	if base == 2 {
		return dv, rng('0', '1')
	}
	isl, isu := rng('a', 'f'), rng('A', 'F')
	v := c.Ite(isd, dv, c.Ite(isl, c.Sub(ch, K(8, 'a'-10)), c.Sub(ch, K(8, 'A'-10))))
	return v, c.Or(isd, c.Or(isl, isu))
}

func (in *Interp) hexDigit(n *Term) *Term {
	// n: 8-bit value 0..15
	c := in.ctx
	return c.Ite(c.ULT(n, K(8, 10)), c.Add(n, K(8, '0')), c.Add(n, K(8, 'a'-10)))
}

func (in *Interp) hexEncode(b []*Term) []*Term {
	c := in.ctx
	var out []*Term
	for _, t := range b {
		out = append(out, in.hexDigit(c.ZExt(c.Extract(t, 7, 4), 8)), in.hexDigit(c.ZExt(c.Extract(t, 3, 0), 8)))
	}
	return out
}

// indexOf is the first position of sub in s, or -1.
func (in *Interp) indexOf(s, sub []*Term) *Term {
	c := in.ctx
	r := KB(64, big.NewInt(-1))
	for i := len(s) - len(sub); i >= 0; i-- {
		eq := tTrue
		for j := range sub {
			eq = c.And(eq, c.Eq(s[i+j], sub[j]))
			if eq == tFalse {
				break
			}
		}
		r = c.Ite(eq, K(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) lastIndexOf(s, sub []*Term) *Term {
	c := in.ctx
	r := KB(64, big.NewInt(-1))
	for i := 0; i <= len(s)-len(sub); i++ {
		eq := tTrue
		for j := range sub {
			eq = c.And(eq, c.Eq(s[i+j], sub[j]))
		}
		r = c.Ite(eq, K(64, uint64(i)), r)
	}
	return r
}

func (in *Interp) countByte(s []*Term, b *Term) *Term {
	c := in.ctx
	r := K(64, 0)
	for _, t := range s {
		r = c.Add(r, c.Ite(c.Eq(t, b), K(64, 1), K(64, 0)))
	}
	return r
}

func (in *Interp) compareBytes(x, y []*Term) *Term {
	c := in.ctx
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := K(64, 0)
	if len(x) < len(y) {
		r = KB(64, big.NewInt(-1))
	} else if len(x) > len(y) {
		r = K(64, 1)
	}
	for i := n - 1; i >= 0; i-- {
		r = c.Ite(c.ULT(x[i], y[i]), KB(64, big.NewInt(-1)), c.Ite(c.Eq(x[i], y[i]), r, K(64, 1)))
	}
	return r
}

func (in *Interp) bytesOf(v value) []*Term {
	switch v := v.(type) {
	case Str:
		return v.bytes()
	case slice:
		return termsOfSlice(in, v)
	}
	in.unsupported(fmt.Sprintf("bytes expected, got %T", v))
	return nil
}

// ---------- nondeterminism

func (in *Interp) ndScalar(kind string, w int32) intrinsicFn {
	return func(in *Interp, args []value) value {
		name := in.str(args[0]).c
		t := in.newVar(name, w)
		in.nd = append(in.nd, &NDValue{Name: name, Kind: kind, Term: t, W: w})
		return t
	}
}

func (in *Interp) ndBytes(name string, n int) []*Term {
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = in.newVar(fmt.Sprintf("%s_%d", name, i), 8)
	}
	in.nd = append(in.nd, &NDValue{Name: name, Kind: "bytes", Byts: ts})
	return ts
}

func (in *Interp) ndChoice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	k := in.choose(n, name)
	in.nd = append(in.nd, &NDValue{Name: name, Kind: "choice", Conc: int64(k)})
	return k
}

func (in *Interp) concInt(v value, what string) int {
	t := in.intTerm(v)
	if !t.isConst() {
		in.unsupported("symbolic " + what)
	}
	return int(int64(t.k))
}

// harnessWhere is the innermost position inside a harness.
func (in *Interp) callerWhere() string { return in.where() }

func init() {
	nd := func(n string, f intrinsicFn) { reg(ndPath+"."+n, impure(f)) }
	var z *Interp
	nd("Bool", z.ndScalar("bool", 0))
	nd("U8", z.ndScalar("u8", 8))
	nd("U16", z.ndScalar("u16", 16))
	nd("U32", z.ndScalar("u32", 32))
	nd("U64", z.ndScalar("u64", 64))
	nd("I32", z.ndScalar("i32", 32))
	nd("I64", z.ndScalar("i64", 64))
	nd("Bytes", func(in *Interp, a []value) value {
		return sliceOfTerms(in.ndBytes(in.str(a[0]).c, in.concInt(a[1], "length")))
	})
	nd("String", func(in *Interp, a []value) value {
		return mkStr(in.ndBytes(in.str(a[0]).c, in.concInt(a[1], "length")))
	})
	nd("BytesUpTo", func(in *Interp, a []value) value {
		n := in.str(a[0]).c
		k := in.ndChoice(n+".len", in.concInt(a[1], "length")+1)
		return sliceOfTerms(in.ndBytes(n, k))
	})
	nd("StringUpTo", func(in *Interp, a []value) value {
		n := in.str(a[0]).c
		k := in.ndChoice(n+".len", in.concInt(a[1], "length")+1)
		return mkStr(in.ndBytes(n, k))
	})
	nd("Choice", func(in *Interp, a []value) value {
		return K(64, uint64(in.ndChoice(in.str(a[0]).c, in.concInt(a[1], "choice"))))
	})
	nd("Big", func(in *Interp, a []value) value {
		name := in.str(a[0]).c
		t := in.newVar(name, int32(in.concInt(a[1], "width")))
		t2 := in.ctx.ZExt(t, t.w+1)
		in.nd = append(in.nd, &NDValue{Name: name, Kind: "big", Term: t2, W: t2.w})
		return in.newBig(in.normBig(t2))
	})
	nd("BigSigned", func(in *Interp, a []value) value {
		name := in.str(a[0]).c
		t := in.newVar(name, int32(in.concInt(a[1], "width")))
		in.nd = append(in.nd, &NDValue{Name: name, Kind: "big", Term: t, W: t.w})
		return in.newBig(bigV{t})
	})
	nd("Assume", func(in *Interp, a []value) value { in.assume(a[0].(*Term)); return nil })
	nd("Assert", func(in *Interp, a []value) value {
		in.assert(a[0].(*Term), in.str(a[1]).String(), in.where())
		return nil
	})
	nd("Fail", func(in *Interp, a []value) value {
		in.sites[in.where()+": "+in.str(a[0]).String()]++
		in.report(in.str(a[0]).String(), in.where())
		return nil
	})
	nd("Reach", func(in *Interp, a []value) value { in.reached[in.str(a[0]).c] = true; return nil })
	nd("Tier", func(in *Interp, a []value) value { return K(64, uint64(in.ex.h.Tier)) })
	nd("MapOrder", func(in *Interp, a []value) value { in.permuteMaps = a[0].(*Term) == tTrue; return nil })
	nd("AllocLimit", func(in *Interp, a []value) value {
		in.extra["allocLimit"] = uint64(in.concInt(a[1], "limit"))
		in.extra["allocWhat"] = in.str(a[0]).c
		return nil
	})
	nd("ExactFormat", func(in *Interp, a []value) value { in.extra["exactFormat"] = true; return nil })
	nd("Symbolic", func(in *Interp, a []value) value { return tTrue })
	nd("Observe", func(in *Interp, a []value) value {
		in.obs = append(in.obs, Observation{in.str(a[0]).c, snapshot(a[1])})
		return nil
	})

	// ----- errors, fmt
	reg("errors.Is", func(in *Interp, a []value) value { return in.errorsIs(a[0].(iface), a[1].(iface)) })
	reg("fmt.Errorf", func(in *Interp, a []value) value {
		va, _ := a[1].(slice)
		s, wrapped := in.sprintf(in.str(a[0]), va)
		if wrapped != nil {
			p := new(value)
			*p = structure{s, *wrapped}
			return iface{in.prog.fmtWrapError, p}
		}
		return in.mkErrStr(s)
	})
	reg("fmt.Sprintf", func(in *Interp, a []value) value {
		va, _ := a[1].(slice)
		s, _ := in.sprintf(in.str(a[0]), va)
		return s
	})
	sprint := func(ln bool) intrinsicFn {
		return func(in *Interp, a []value) value {
			va, _ := a[0].(slice)
			var out []*Term
			prevStr := true
			for i, v := range va {
				_, isS := v.(iface).v.(Str)
				if i > 0 && (ln || (!isS && !prevStr)) {
					out = append(out, K(8, ' '))
				}
				prevStr = isS
				out = append(out, in.fmtVal('v', "", v.(iface))...)
			}
			if ln {
				out = append(out, K(8, '\n'))
			}
			return mkStr(out)
		}
	}
	reg("fmt.Sprint", sprint(false))
	reg("fmt.Sprintln", sprint(true))
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		reg(n, func(in *Interp, a []value) value { return tuple{K(64, 0), iface{}} })
	}

	// ----- runtime, sync
	for _, n := range []string{
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer",
		"runtime/debug.PrintStack", "runtime.Gosched", "os.Exit", "time.Sleep",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
	} {
		reg(n, noResult)
	}
	reg("runtime/debug.Stack", func(in *Interp, a []value) value { return slice{} })
	reg("runtime.Caller", func(in *Interp, a []value) value { return tuple{K(64, 0), Str{c: "?"}, K(64, 0), tTrue} })
	reg("runtime.Callers", func(in *Interp, a []value) value { return K(64, 0) })
	reg("time.Now", func(in *Interp, a []value) value {
		return structure{K(64, 0), K(64, 0), (*value)(nil)}
	})
	reg("time.Since", func(in *Interp, a []value) value { return K(64, 0) })
	reg("(time.Duration).String", func(in *Interp, a []value) value { return Str{c: "0s"} })
	reg("internal/abi.NoEscape", func(in *Interp, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(in *Interp, a []value) value { return a[0] })
	reg("internal/race.Acquire", noResult)
	reg("internal/race.Release", noResult)
	reg("internal/stringslite.Clone", func(in *Interp, a []value) value { return a[0] })
	reg("strings.Clone", func(in *Interp, a []value) value { return a[0] })

	// ----- math/bits fast paths (const or via definition)
	bitfn := func(name string, w int32, f func(uint64) int) {
		reg(name, func(in *Interp, a []value) value {
			t := in.intTerm(a[0])
			if t.isConst() {
				return K(64, uint64(f(t.k)))
			}
			switch {
			case strings.Contains(name, "Len"):
				r := K(64, 0)
				for i := int32(0); i < t.w; i++ {
					r = in.ctx.Ite(in.ctx.Eq(in.ctx.Extract(t, i, i), K(1, 1)), K(64, uint64(i)+1), r)
				}
				return r
			case strings.Contains(name, "LeadingZeros"):
				r := K(64, uint64(t.w))
				for i := int32(0); i < t.w; i++ {
					r = in.ctx.Ite(in.ctx.Eq(in.ctx.Extract(t, i, i), K(1, 1)), K(64, uint64(t.w-1-i)), r)
				}
				return r
			case strings.Contains(name, "TrailingZeros"):
				r := K(64, uint64(t.w))
				for i := t.w - 1; i >= 0; i-- {
					r = in.ctx.Ite(in.ctx.Eq(in.ctx.Extract(t, i, i), K(1, 1)), K(64, uint64(i)), r)
				}
				return r
			case strings.Contains(name, "OnesCount"):
				r := K(64, 0)
				for i := int32(0); i < t.w; i++ {
					r = in.ctx.Add(r, in.ctx.ZExt(in.ctx.Extract(t, i, i), 64))
				}
				return r
			}
			return nil
		})
	}
	bitfn("math/bits.Len64", 64, bits.Len64)
	bitfn("math/bits.Len", 64, bits.Len64)
	bitfn("math/bits.Len32", 32, func(x uint64) int { return bits.Len32(uint32(x)) })
	bitfn("math/bits.Len8", 8, func(x uint64) int { return bits.Len8(uint8(x)) })
	bitfn("math/bits.LeadingZeros64", 64, bits.LeadingZeros64)
	bitfn("math/bits.LeadingZeros32", 32, func(x uint64) int { return bits.LeadingZeros32(uint32(x)) })
	bitfn("math/bits.TrailingZeros64", 64, bits.TrailingZeros64)
	bitfn("math/bits.TrailingZeros32", 32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	bitfn("math/bits.OnesCount64", 64, bits.OnesCount64)

	regMul := func(w int32) intrinsicFn {
		return func(in *Interp, a []value) value {
			c := in.ctx
			x, y := c.ZExt(in.intTerm(a[0]), 128), c.ZExt(in.intTerm(a[1]), 128)
			m := c.Mul(x, y)
			return tuple{c.Extract(m, 127, 64), c.Extract(m, 63, 0)}
		}
	}
	reg("math/bits.Mul64", regMul(64))
	reg("math/bits.Add64", func(in *Interp, a []value) value {
		c := in.ctx
		s := c.Add(c.Add(c.ZExt(in.intTerm(a[0]), 65), c.ZExt(in.intTerm(a[1]), 65)), c.ZExt(in.intTerm(a[2]), 65))
		return tuple{c.Extract(s, 63, 0), c.ZExt(c.Extract(s, 64, 64), 64)}
	})
	reg("math/bits.Sub64", func(in *Interp, a []value) value {
		c := in.ctx
		s := c.Sub(c.Sub(c.ZExt(in.intTerm(a[0]), 65), c.ZExt(in.intTerm(a[1]), 65)), c.ZExt(in.intTerm(a[2]), 65))
		return tuple{c.Extract(s, 63, 0), c.ZExt(c.Extract(s, 64, 64), 64)}
	})

	// ----- strings and bytes
	for _, p := range []string{"strings", "internal/stringslite", "bytes"} {
		reg(p+".Index", func(in *Interp, a []value) value {
			return in.indexOf(in.bytesOf(a[0]), in.bytesOf(a[1]))
		})
		reg(p+".IndexByte", func(in *Interp, a []value) value {
			return in.indexOf(in.bytesOf(a[0]), []*Term{in.intTerm(a[1])})
		})
	}
	reg("strings.LastIndex", func(in *Interp, a []value) value { return in.lastIndexOf(in.bytesOf(a[0]), in.bytesOf(a[1])) })
	reg("bytes.LastIndex", func(in *Interp, a []value) value { return in.lastIndexOf(in.bytesOf(a[0]), in.bytesOf(a[1])) })
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString"} {
		reg(n, func(in *Interp, a []value) value {
			return in.indexOf(in.bytesOf(a[0]), []*Term{in.intTerm(a[1])})
		})
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, func(in *Interp, a []value) value { return in.indexOf(in.bytesOf(a[0]), in.bytesOf(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(in *Interp, a []value) value {
			n := in.countByte(in.bytesOf(a[0]), in.intTerm(a[1]))
			return K(64, in.concretize(n, 65, "number of occurrences"))
		})
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "bytes.Compare", "strings.Compare"} {
		reg(n, func(in *Interp, a []value) value { return in.compareBytes(in.bytesOf(a[0]), in.bytesOf(a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(in *Interp, a []value) value { return in.eqTerm(mkStr(in.bytesOf(a[0])), mkStr(in.bytesOf(a[1]))) })
	}
	reg("internal/bytealg.MakeNoZero", func(in *Interp, a []value) value {
		n := in.concInt(a[0], "size")
		s := make(slice, n)
		for i := range s {
			s[i] = K(8, 0)
		}
		return s
	})
	mapCase := func(lo, hi byte, d uint64) intrinsicFn {
		return func(in *Interp, a []value) value {
			s := in.str(a[0])
			c := in.ctx
			if s.t == nil {
				if lo == 'A' {
					return Str{c: strings.ToLower(s.c)}
				}
				return Str{c: strings.ToUpper(s.c)}
			}
			out := make([]*Term, s.len())
			for i := range out {
				b := s.at(i)
				if !in.decide(c.ULT(b, K(8, 0x80))) {
					in.unsupported("case mapping of a symbolic non-ASCII string")
				}
				out[i] = c.Ite(c.And(c.ULE(K(8, uint64(lo)), b), c.ULE(b, K(8, uint64(hi)))), c.Add(b, K(8, d)), b)
			}
			return mkStr(out)
		}
	}
	reg("strings.ToLower", mapCase('A', 'Z', 32))
	reg("strings.ToUpper", mapCase('a', 'z', 224))
	uni := func(name string, f func(rune) bool) {
		reg("unicode."+name, func(in *Interp, a []value) value {
			t := in.intTerm(a[0])
			if t.isConst() {
				return KBool(f(rune(int32(t.k))))
			}
			c := in.ctx
			if !in.decide(c.ULT(t, K(32, 0x100))) {
				if name == "IsSpace" {
					r := tFalse
					for _, sp := range []uint64{0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000} {
						r = c.Or(r, c.Eq(t, K(32, sp)))
					}
					return c.Or(r, c.And(c.ULE(K(32, 0x2000), t), c.ULE(t, K(32, 0x200a))))
				}
				in.unsupported("unicode class of a symbolic rune")
			}
			r := tFalse
			for lo := 0; lo < 256; {
				if !f(rune(lo)) {
					lo++
					continue
				}
				hi := lo
				for hi+1 < 256 && f(rune(hi+1)) {
					hi++
				}
				r = c.Or(r, c.And(c.ULE(K(32, uint64(lo)), t), c.ULE(t, K(32, uint64(hi)))))
				lo = hi + 1
			}
			return r
		})
	}
	uni("IsSpace", unicode.IsSpace)
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	uni("IsPrint", unicode.IsPrint)

	reg("github.com/ElrondNetwork/elrond-go-logger/check.IfNilReflect", func(in *Interp, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return tTrue
		}
		if p, ok := x.v.(*value); ok && p == nil {
			return tTrue
		}
		return tFalse
	})

	// ----- hex
	reg("encoding/hex.EncodeToString", func(in *Interp, a []value) value { return mkStr(in.hexEncode(in.bytesOf(a[0]))) })
	reg("encoding/hex.DecodeString", func(in *Interp, a []value) value {
		b := in.bytesOf(a[0])
		var out []*Term
		c := in.ctx
		for i := 0; i+1 < len(b); i += 2 {
			h, ok1 := in.digit(b[i], 16)
			l, ok2 := in.digit(b[i+1], 16)
			if !in.decide(c.And(ok1, ok2)) {
				return tuple{sliceOfTerms(out), in.mkErr("encoding/hex: invalid byte")}
			}
			out = append(out, c.Concat(c.Extract(h, 3, 0), c.Extract(l, 3, 0)))
		}
		if len(b)%2 == 1 {
			return tuple{sliceOfTerms(out), in.mkErr("encoding/hex: odd length hex string")}
		}
		return tuple{sliceOfTerms(out), iface{}}
	})

	// ----- sort
	sortSlice := impure(func(in *Interp, a []value) value {
		s := a[0].(iface).v.(slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				lt := in.call(a[1], []value{K(64, uint64(j)), K(64, uint64(j-1))}).(*Term)
				if !in.decide(lt) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeVal(&s[j], y)
				storeVal(&s[j-1], x)
			}
		}
		return nil
	})
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.Strings", impure(func(in *Interp, a []value) value {
		s := a[0].(slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !in.decide(in.strLess(s[j].(Str), s[j-1].(Str))) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}))

	// ----- hashes
	for n, l := range map[string]int{
		"crypto/sha256.New": 32, "golang.org/x/crypto/sha3.NewLegacyKeccak256": 32, "golang.org/x/crypto/ripemd160.New": 20,
		"crypto/sha512.New": 64, "golang.org/x/crypto/sha3.New256": 32,
	} {
		n, l := n, l
		reg(n, impure(func(in *Interp, a []value) value {
			return iface{t: types.Typ[types.Int], v: opaque{"hash", &hashState{kind: n, n: l}}}
		}))
	}
	reg("crypto/sha256.Sum256", impure(func(in *Interp, a []value) value {
		out := in.hash("crypto/sha256.New", 32, in.bytesOf(a[0]))
		r := make(array, 32)
		for i := range r {
			r[i] = out[i]
		}
		return r
	}))

	// ----- reflect (a small part)
	reg("reflect.TypeOf", func(in *Interp, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return iface{}
		}
		return iface{t: in.prog.rtype, v: opaque{"rtype", x.t}}
	})
	reg("reflect.ValueOf", func(in *Interp, a []value) value {
		x := a[0].(iface)
		return opaque{"rvalue", &rvalue{t: x.t, v: x.v}}
	})
	reg("reflect.DeepEqual", func(in *Interp, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		return in.deepEq(x, y, 0)
	})
	rv := func(n string, f func(in *Interp, r *rvalue, a []value) value) {
		reg("(reflect.Value)."+n, func(in *Interp, a []value) value {
			o, ok := a[0].(opaque)
			if !ok {
				in.unsupported("reflect.Value zero")
			}
			return f(in, o.data.(*rvalue), a[1:])
		})
	}
	rv("NumField", func(in *Interp, r *rvalue, a []value) value {
		return K(64, uint64(r.t.Underlying().(*types.Struct).NumFields()))
	})
	rv("Field", func(in *Interp, r *rvalue, a []value) value {
		i := in.concInt(a[0], "field index")
		return opaque{"rvalue", &rvalue{t: r.t.Underlying().(*types.Struct).Field(i).Type(), v: r.v.(structure)[i]}}
	})
	rv("Kind", func(in *Interp, r *rvalue, a []value) value { return K(64, kindOf(r.t)) })
	rv("Uint", func(in *Interp, r *rvalue, a []value) value { return in.ctx.ZExt(in.intTerm(r.v), 64) })
	rv("Int", func(in *Interp, r *rvalue, a []value) value { return in.ctx.SExt(in.intTerm(r.v), 64) })
	rv("Interface", func(in *Interp, r *rvalue, a []value) value { return iface{r.t, r.v} })
	rv("IsNil", func(in *Interp, r *rvalue, a []value) value {
		switch v := r.v.(type) {
		case *value:
			return KBool(v == nil)
		case slice:
			return KBool(v == nil)
		case *Map:
			return KBool(v == nil)
		case iface:
			return KBool(v.t == nil)
		}
		return tFalse
	})
	rv("Type", func(in *Interp, r *rvalue, a []value) value {
		return iface{t: in.prog.rtype, v: opaque{"rtype", r.t}}
	})
	rv("Elem", func(in *Interp, r *rvalue, a []value) value {
		if p, ok := r.t.Underlying().(*types.Pointer); ok {
			return opaque{"rvalue", &rvalue{t: p.Elem(), v: *(r.v.(*value))}}
		}
		in.unsupported("reflect Elem")
		return nil
	})
	reg("github.com/mitchellh/mapstructure.Decode", impure(func(in *Interp, a []value) value {
		return in.mapstructure(a[0].(iface), a[1].(iface))
	}))

	// ----- the cgo bridge to wasmer: only what runs without real instances
	w := modPath + "/wasmer."
	reg(w+"SetImports", func(in *Interp, a []value) value { return iface{} })
	reg(w+"cWasmerSetOpcodeCosts", noResult)
	reg(w+"cWasmerInstanceContextMemory", func(in *Interp, a []value) value { return (*value)(nil) })
	reg(w+"cWasmerInstanceContextDataGet", func(in *Interp, a []value) value { return unsafePtr{p: a[0]} })
	reg(w+"GetLastError", func(in *Interp, a []value) value { return tuple{Str{c: "stub"}, iface{}} })

	registerBig()
	registerJSON()
	registerPipes()
}

type rvalue struct {
	t types.Type
	v value
}

func kindOf(t types.Type) uint64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func (in *Interp) rtypeCall(t types.Type, name string, args []value) value {
	mk := func(t types.Type) value { return iface{t: in.prog.rtype, v: opaque{"rtype", t}} }
	switch name {
	case "Kind":
		return K(64, kindOf(t))
	case "NumIn":
		return K(64, uint64(t.Underlying().(*types.Signature).Params().Len()))
	case "NumOut":
		return K(64, uint64(t.Underlying().(*types.Signature).Results().Len()))
	case "In":
		return mk(t.Underlying().(*types.Signature).Params().At(in.concInt(args[0], "index")).Type())
	case "Out":
		return mk(t.Underlying().(*types.Signature).Results().At(in.concInt(args[0], "index")).Type())
	case "String", "Name":
		return Str{c: t.String()}
	case "Comparable":
		return KBool(types.Comparable(t))
	case "NumField":
		return K(64, uint64(t.Underlying().(*types.Struct).NumFields()))
	case "Field":
		f := t.Underlying().(*types.Struct).Field(in.concInt(args[0], "index"))
		pkg := ""
		if !f.Exported() {
			pkg = f.Pkg().Path()
		}
		return structure{Str{c: f.Name()}, Str{c: pkg}, mk(f.Type()), Str{c: ""}, K(64, 0), slice(nil), KBool(f.Anonymous())}
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return mk(u.Elem())
		case *types.Slice:
			return mk(u.Elem())
		}
	}
	in.unsupported("reflect.Type." + name)
	return nil
}

// mapstructure decodes map[string]<uint64|float64|int> into a struct pointer.
func (in *Interp) mapstructure(src, dst iface) value {
	m, ok := src.v.(*Map)
	p, ok2 := dst.v.(*value)
	if !ok || !ok2 || p == nil {
		in.unsupported("mapstructure.Decode of this shape")
	}
	st := dst.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if m == nil {
		return iface{}
	}
	s := (*p).(structure)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		var hit *mapEntry
		for _, e := range m.entries {
			if e.deleted {
				continue
			}
			k := in.str(e.k)
			if k.t != nil {
				in.unsupported("symbolic map key in mapstructure.Decode")
			}
			if k.c == f.Name() {
				hit = e
				break
			}
			if hit == nil && strings.EqualFold(k.c, f.Name()) {
				hit = e
			}
		}
		if hit == nil {
			continue
		}
		v := hit.v
		if iv, ok := v.(iface); ok {
			v = iv.v
		}
		t, ok := v.(*Term)
		w, _, okw := widthOf(f.Type())
		if !ok || !okw {
			in.unsupported("mapstructure field type")
		}
		s[i] = in.ctx.resize(t, w, false)
	}
	return iface{}
}

func (in *Interp) errorsIs(err, target iface) value {
	if err.t == nil || target.t == nil {
		return KBool(err.t == nil && target.t == nil)
	}
	for depth := 0; depth < 20; depth++ {
		if types.Comparable(target.t) && types.Identical(err.t, target.t) {
			eq := in.eqTerm(err.v, target.v)
			if eq.isConst() {
				if eq.k == 1 {
					return tTrue
				}
			} else if in.decide(eq) {
				return tTrue
			}
		}
		if m := in.prog.methodByName(err.t, "Is"); m != nil {
			r := in.call(m, []value{copyVal(err.v), target}).(*Term)
			if in.decide(r) {
				return tTrue
			}
		}
		m := in.prog.methodByName(err.t, "Unwrap")
		if m == nil {
			return tFalse
		}
		r := in.call(m, []value{copyVal(err.v)})
		switch r := r.(type) {
		case iface:
			if r.t == nil {
				return tFalse
			}
			err = r
		case slice:
			for _, e := range r {
				if in.errorsIs(e.(iface), target).(*Term) == tTrue {
					return tTrue
				}
			}
			return tFalse
		}
	}
	return tFalse
}

// snapshot copies an observed value so that later writes do not change it.
func snapshot(v value) value {
	switch v := v.(type) {
	case iface:
		return iface{v.t, snapshot(v.v)}
	case slice:
		if v == nil {
			return v
		}
		r := make(slice, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case *value:
		if v == nil {
			return v
		}
		if b, ok := (*v).(bigV); ok {
			p := new(value)
			*p = b
			return p
		}
	}
	return v
}

// ---------- fmt

// sprintf formats; the error of the first %w is returned too.
func (in *Interp) sprintf(f Str, args slice) (Str, *value) {
	if f.t != nil {
		if len(args) == 0 {
			verb := tFalse
			for _, b := range f.bytes() {
				verb = in.ctx.Or(verb, in.ctx.Eq(b, K(8, '%')))
			}
			if !in.decide(verb) {
				return f, nil
			}
		}
		return Str{c: "<formatted>"}, nil
	}
	var out []*Term
	var wrapped *value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, K(8, uint64(s[i])))
		}
	}
	ai := 0
	s := f.c
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit(s[i : i+1])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			lit("%!(NOVERB)")
			break
		}
		verb := s[j]
		flags := s[i+1 : j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if verb == 'w' {
			if wrapped == nil && a.t != nil {
				var v value = a
				wrapped = &v
			}
			verb = 'v'
		}
		out = append(out, in.fmtVal(verb, flags, a)...)
	}
	if ai < len(args) {
		lit("%!(EXTRA )")
	}
	return mkStr(out), wrapped
}

func litTerms(s string) []*Term { return Str{c: s}.bytes() }

func (in *Interp) fmtVal(verb byte, flags string, a iface) []*Term {
	if a.t == nil {
		return litTerms("<nil>")
	}
	if verb == 'T' {
		return litTerms(a.t.String())
	}
	if verb == 'p' {
		return litTerms("0xc000000000")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if p, ok := a.v.(*value); !ok || p != nil {
			for _, mn := range []string{"Error", "String"} {
				if isNamedPtrBig(a.t) {
					break
				}
				if m := in.prog.methodByName(a.t, mn); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
					if r, ok := in.call(m, []value{copyVal(a.v)}).(Str); ok {
						return r.bytes()
					}
				}
			}
		}
	}
	switch v := a.v.(type) {
	case Str:
		switch verb {
		case 'x':
			return in.hexEncode(v.bytes())
		case 'q':
			return append(append(litTerms("\""), v.bytes()...), K(8, '"'))
		}
		return v.bytes()
	case *Term:
		if v.isConst() {
			spec := "%" + flags + string(verb)
			if v.w == 0 {
				return litTerms(fmt.Sprintf(spec, v.k == 1))
			}
			_, signed, _ := widthOf(a.t)
			if signed {
				return litTerms(fmt.Sprintf(spec, sext64(v.w, v.k)))
			}
			return litTerms(fmt.Sprintf(spec, v.k))
		}
		if in.extra["exactFormat"] != nil {
			if v.w == 0 {
				return litTerms(fmt.Sprint(in.decide(v)))
			}
			_, signed, _ := widthOf(a.t)
			t := in.ctx.ZExt(v, v.w+1)
			if signed {
				t = in.ctx.SExt(v, v.w+1)
			}
			if r, ok := in.fmtExact(verb, flags, bigV{t}); ok {
				return r
			}
			in.unsupported("exact format %" + flags + string(verb))
		}
		return litTerms("<num>")
	case float64:
		return litTerms(fmt.Sprintf("%"+flags+string(verb), v))
	case slice:
		if sl, ok := a.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				switch verb {
				case 's':
					return termsOfSlice(in, v)
				case 'x':
					return in.hexEncode(termsOfSlice(in, v))
				}
				conc := true
				bs := make([]byte, len(v))
				for i, e := range v {
					t := e.(*Term)
					if !t.isConst() {
						conc = false
						break
					}
					bs[i] = byte(t.k)
				}
				if conc {
					return litTerms(fmt.Sprintf("%"+flags+string(verb), bs))
				}
				return litTerms("<bytes>")
			}
		}
		out := litTerms("[")
		for i, e := range v {
			if i > 0 {
				out = append(out, K(8, ' '))
			}
			et := a.t.Underlying().(*types.Slice).Elem()
			if ie, ok := e.(iface); ok {
				out = append(out, in.fmtVal(verb, flags, ie)...)
			} else {
				out = append(out, in.fmtVal(verb, flags, iface{et, e})...)
			}
		}
		return append(out, K(8, ']'))
	case *value:
		if v == nil {
			return litTerms("<nil>")
		}
		if b, ok := (*v).(bigV); ok {
			if b.t.isConst() {
				return litTerms(fmt.Sprintf("%"+flags+string(verb), b.t.csigned()))
			}
			if in.extra["exactFormat"] != nil {
				if r, ok := in.fmtExact(verb, flags, b); ok {
					return r
				}
				in.unsupported("exact format %" + flags + string(verb))
			}
			return litTerms("<num>")
		}
		return litTerms("<ptr>")
	case bigV:
		return litTerms("<num>")
	}
	return litTerms("<value>")
}

// fmtExact is the text of a symbolic number, for harnesses that ask for it.
func (in *Interp) fmtExact(verb byte, flags string, b bigV) ([]*Term, bool) {
	base := 10
	b = bigV{in.normBig(b.t).t}
	switch {
	case (verb == 'd' || verb == 'v') && flags == "":
		if b.t.w > 40 && base == 10 {
			return nil, false
		}
	case verb == 'x' && (flags == "" || flags == "02"):
		base = 16
	default:
		return nil, false
	}
	r := in.bigText(b, base).bytes()
	if flags == "02" && len(r) < 2 {
		r = append([]*Term{K(8, '0')}, r...)
	}
	return r, true
}

func isNamedPtrBig(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && isNamed(p.Elem(), "math/big", "Int")
}

// ---------- hashes

type hashState struct {
	kind string
	n    int
	data []*Term
}

func (in *Interp) hashCall(h *hashState, name string, args []value) value {
	in.noSpec()
	switch name {
	case "Write":
		b := in.bytesOf(args[0])
		h.data = append(append([]*Term{}, h.data...), b...)
		return tuple{K(64, uint64(len(b))), iface{}}
	case "Sum":
		return sliceOfTerms(append(in.bytesOf(args[0]), in.hash(h.kind, h.n, h.data)...))
	case "Reset":
		h.data = nil
		return nil
	case "Size":
		return K(64, uint64(h.n))
	case "BlockSize":
		return K(64, 64)
	}
	in.unsupported("hash method " + name)
	return nil
}

// hash is an uninterpreted function of its input bytes (sha256 of concrete
// bytes is computed).
func (in *Interp) hash(kind string, n int, data []*Term) []*Term {
	s := mkStr(data)
	if kind == "crypto/sha256.New" && s.t == nil {
		h := sha256.Sum256([]byte(s.c))
		return Str{c: string(h[:])}.bytes()
	}
	out := make([]*Term, n)
	for _, r := range in.hashMemo {
		if r.kind == kind && len(r.in) == len(data) {
			same := true
			for i := range data {
				if data[i] != r.in[i] {
					same = false
					break
				}
			}
			if same {
				return r.out
			}
		}
	}
	for i := range out {
		out[i] = in.newVar(fmt.Sprintf("hash%d_%d", len(in.hashMemo), i), 8)
	}
	for _, r := range in.hashMemo {
		if r.kind != kind || len(r.in) != len(data) {
			continue
		}
		eqIn, eqOut := tTrue, tTrue
		for i := range data {
			eqIn = in.ctx.And(eqIn, in.ctx.Eq(data[i], r.in[i]))
		}
		for i := range out {
			eqOut = in.ctx.And(eqOut, in.ctx.Eq(out[i], r.out[i]))
		}
		in.assume(in.ctx.Or(in.ctx.Not(eqIn), eqOut))
	}
	in.hashMemo = append(in.hashMemo, hashRec{kind, append([]*Term{}, data...), out})
	return out
}

// ---------- atomics

func atomicIntrinsic(short string) intrinsicFn {
	ptr := func(in *Interp, v value) *value {
		p, ok := v.(*value)
		if !ok {
			in.unsupported("atomic on unsafe pointer")
		}
		if p == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	switch {
	case strings.HasPrefix(short, "Load"):
		return func(in *Interp, a []value) value { return copyVal(*ptr(in, a[0])) }
	case strings.HasPrefix(short, "Store"):
		return func(in *Interp, a []value) value { in.store(ptr(in, a[0]), a[1]); return nil }
	case strings.HasPrefix(short, "Add"):
		return func(in *Interp, a []value) value {
			p := ptr(in, a[0])
			v := in.ctx.Add((*p).(*Term), a[1].(*Term))
			in.store(p, v)
			return v
		}
	case strings.HasPrefix(short, "Swap"):
		return func(in *Interp, a []value) value {
			p := ptr(in, a[0])
			old := *p
			in.store(p, a[1])
			return old
		}
	case strings.HasPrefix(short, "CompareAndSwap"):
		return func(in *Interp, a []value) value {
			p := ptr(in, a[0])
			if in.decide(in.eqTerm(*p, a[1])) {
				in.store(p, a[2])
				return tTrue
			}
			return tFalse
		}
	}
	return nil
}

// ---------- big.Int

func registerBig() {
	m := func(n string, f intrinsicFn) { reg("(*math/big.Int)."+n, f) }
	reg("math/big.NewInt", func(in *Interp, a []value) value { return in.newBig(in.normBig(in.intTerm(a[0]))) })
	m("Set", func(in *Interp, a []value) value { return in.setBig(a[0], in.bigArg(a[1])) })
	m("SetInt64", func(in *Interp, a []value) value { return in.setBig(a[0], in.normBig(in.intTerm(a[1]))) })
	m("SetUint64", func(in *Interp, a []value) value {
		return in.setBig(a[0], in.normBig(in.ctx.ZExt(in.intTerm(a[1]), 65)))
	})
	m("SetBytes", func(in *Interp, a []value) value { return in.setBig(a[0], in.bigFromBytes(in.bytesOf(a[1]))) })
	m("SetString", func(in *Interp, a []value) value {
		v, ok := in.parseBig(in.str(a[1]), in.concInt(a[2], "base"))
		if ok == tFalse {
			return tuple{(*value)(nil), tFalse}
		}
		in.setBig(a[0], v)
		return tuple{a[0], ok}
	})
	m("Bytes", func(in *Interp, a []value) value { return sliceOfTerms(in.bigBytes(in.bigArg(a[0]))) })
	m("FillBytes", func(in *Interp, a []value) value {
		b := in.bigBytes(in.bigArg(a[0]))
		buf := a[1].(slice)
		if len(b) > len(buf) {
			in.goPanic(iface{t: types.Typ[types.String], v: Str{c: "math/big: buffer too small to fit value"}})
		}
		in.noSpec()
		for i := range buf {
			buf[i] = K(8, 0)
		}
		for i, t := range b {
			buf[len(buf)-len(b)+i] = t
		}
		return buf
	})
	bin := func(n string, f func(in *Interp, x, y bigV) bigV) {
		m(n, func(in *Interp, a []value) value {
			x, y := in.bigArg(a[1]), in.bigArg(a[2])
			return in.setBig(a[0], f(in, x, y))
		})
	}
	bin("Add", (*Interp).bigAdd)
	bin("Sub", (*Interp).bigSub)
	bin("Mul", (*Interp).bigMul)
	bin("Quo", func(in *Interp, x, y bigV) bigV { q, _ := in.bigQuoRem(x, y); return q })
	bin("Rem", func(in *Interp, x, y bigV) bigV { _, r := in.bigQuoRem(x, y); return r })
	bin("Div", func(in *Interp, x, y bigV) bigV { q, _ := in.bigDivMod(x, y); return q })
	bin("Mod", func(in *Interp, x, y bigV) bigV { _, r := in.bigDivMod(x, y); return r })
	bin("And", func(in *Interp, x, y bigV) bigV { a, b := in.bigAlign(x, y); return in.normBig(in.ctx.BAnd(a, b)) })
	bin("Or", func(in *Interp, x, y bigV) bigV { a, b := in.bigAlign(x, y); return in.normBig(in.ctx.BOr(a, b)) })
	bin("Xor", func(in *Interp, x, y bigV) bigV { a, b := in.bigAlign(x, y); return in.normBig(in.ctx.BXor(a, b)) })
	m("Not", func(in *Interp, a []value) value {
		return in.setBig(a[0], in.normBig(in.ctx.BNot(in.bigArg(a[1]).t)))
	})
	m("Neg", func(in *Interp, a []value) value { return in.setBig(a[0], in.bigNeg(in.bigArg(a[1]))) })
	m("Abs", func(in *Interp, a []value) value { return in.setBig(a[0], in.bigAbs(in.bigArg(a[1]))) })
	m("Cmp", func(in *Interp, a []value) value { return in.bigCmp(in.bigArg(a[0]), in.bigArg(a[1])) })
	m("CmpAbs", func(in *Interp, a []value) value {
		return in.bigCmp(in.bigAbs(in.bigArg(a[0])), in.bigAbs(in.bigArg(a[1])))
	})
	m("Sign", func(in *Interp, a []value) value { return in.bigSign(in.bigArg(a[0])) })
	m("BitLen", func(in *Interp, a []value) value { return in.bigBitLen(in.bigArg(a[0])) })
	m("Int64", func(in *Interp, a []value) value { return in.bigLow64(in.bigArg(a[0])) })
	m("Uint64", func(in *Interp, a []value) value { return in.bigLow64(in.bigAbs(in.bigArg(a[0]))) })
	m("IsInt64", func(in *Interp, a []value) value {
		return in.bigFits(in.bigArg(a[0]), new(big.Int).Neg(new(big.Int).Lsh(bigOne, 63)), new(big.Int).Sub(new(big.Int).Lsh(bigOne, 63), bigOne))
	})
	m("IsUint64", func(in *Interp, a []value) value {
		return in.bigFits(in.bigArg(a[0]), new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(bigOne, 64), bigOne))
	})
	m("Bit", func(in *Interp, a []value) value {
		x := in.bigArg(a[0])
		i := in.concInt(a[1], "bit index")
		if int32(i) >= x.t.w {
			i = int(x.t.w) - 1
		}
		return in.ctx.ZExt(in.ctx.Extract(x.t, int32(i), int32(i)), 64)
	})
	m("Lsh", func(in *Interp, a []value) value {
		x := in.bigArg(a[1])
		n := int32(in.concretize(in.intTerm(a[2]), 80, "big shift count"))
		if n < 0 || n > 10000 {
			in.unsupported("big shift")
		}
		if n == 0 {
			return in.setBig(a[0], x)
		}
		return in.setBig(a[0], in.normBig(in.ctx.Concat(x.t, KB(n, bigZero))))
	})
	m("Rsh", func(in *Interp, a []value) value {
		x := in.bigArg(a[1])
		c := in.ctx
		n := in.intTerm(a[2])
		w := x.t.w
		if n.isConst() {
			k := n.k
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return in.setBig(a[0], in.normBig(c.Extract(x.t, w-1, int32(k))))
		}
		ww := w
		if ww < 16 {
			ww = 16
		}
		var cnt *Term
		sat := c.Ite(c.ULT(n, K(64, uint64(ww))), n, K(64, uint64(ww)))
		if ww < 64 {
			cnt = c.Extract(sat, ww-1, 0)
		} else {
			cnt = c.ZExt(sat, ww)
		}
		return in.setBig(a[0], in.normBig(c.AShr(c.SExt(x.t, ww), cnt)))
	})
	m("DivMod", func(in *Interp, a []value) value {
		q, r := in.bigDivMod(in.bigArg(a[1]), in.bigArg(a[2]))
		in.setBig(a[3], r)
		in.setBig(a[0], q)
		return tuple{a[0], a[3]}
	})
	m("QuoRem", func(in *Interp, a []value) value {
		q, r := in.bigQuoRem(in.bigArg(a[1]), in.bigArg(a[2]))
		in.setBig(a[3], r)
		in.setBig(a[0], q)
		return tuple{a[0], a[3]}
	})
	text := func(in *Interp, v value, base int) Str {
		p := v.(*value)
		if p == nil {
			return Str{c: "<nil>"}
		}
		b := in.bigArg(v)
		if b.t.isConst() {
			return Str{c: b.t.csigned().Text(base)}
		}
		return in.bigText(b, base)
	}
	m("String", func(in *Interp, a []value) value { return text(in, a[0], 10) })
	m("Text", func(in *Interp, a []value) value { return text(in, a[0], in.concInt(a[1], "base")) })
	conc := func(n string, f func(x []*big.Int) *big.Int) {
		m(n, func(in *Interp, a []value) value {
			var xs []*big.Int
			for _, v := range a[1:] {
				if p, ok := v.(*value); ok && p == nil {
					xs = append(xs, nil)
					continue
				}
				b := in.bigArg(v)
				if !b.t.isConst() {
					in.unsupported("big.Int." + n + " of a symbolic value")
				}
				xs = append(xs, b.t.csigned())
			}
			return in.setBig(a[0], bigConst(f(xs)))
		})
	}
	conc("Exp", func(x []*big.Int) *big.Int { return new(big.Int).Exp(x[0], x[1], x[2]) })
	conc("Sqrt", func(x []*big.Int) *big.Int { return new(big.Int).Sqrt(x[0]) })
	conc("ModInverse", func(x []*big.Int) *big.Int { return new(big.Int).ModInverse(x[0], x[1]) })
}

// bigText prints a symbolic integer exactly when it is small, by forking on
// the number of digits.
func (in *Interp) bigText(b bigV, base int) Str {
	if in.spec > 0 {
		panic(specAbort{})
	}
	if b.t.w > 40 && base == 10 {
		return Str{c: "<num>"}
	}
	c := in.ctx
	var out []*Term
	if in.decide(in.bigIsNeg(b)) {
		out = append(out, K(8, '-'))
	}
	x := in.bigAbs(b)
	w := x.t.w + 1
	if w < 8 {
		w = 8
	}
	t := c.SExt(x.t, w)
	n := 1
	lim := big.NewInt(int64(base))
	for int32(lim.BitLen()) < w && !in.decide(c.ULT(t, KB(w, lim))) {
		n++
		lim = new(big.Int).Mul(lim, big.NewInt(int64(base)))
	}
	d := big.NewInt(1)
	digs := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		q := t
		if d.Cmp(bigOne) != 0 {
			q = c.UDiv(t, KB(w, d))
		}
		r := c.Extract(c.URem(q, KB(w, big.NewInt(int64(base)))), 7, 0)
		digs[i] = in.hexDigit(r)
		d = new(big.Int).Mul(d, big.NewInt(int64(base)))
	}
	return mkStr(append(out, digs...))
}

// ---------- serialization as tokens

// A marshalled document is a token of fixed shape that stands for a deep copy of
// the value; unmarshalling the same token gives the value back.
const jsonMagic = "\x00{J"

func registerJSON() {
	marshal := impure(func(in *Interp, a []value) value {
		x := a[0].(iface)
		in.blobs = append(in.blobs, iface{x.t, in.deepCopy(x.v, x.t, 0)})
		b := append([]byte(jsonMagic), 0, 0, 0, 0)
		binary.BigEndian.PutUint32(b[len(jsonMagic):], uint32(len(in.blobs)-1))
		return tuple{sliceOfTerms(Str{c: string(b)}.bytes()), iface{}}
	})
	unmarshal := impure(func(in *Interp, a []value) value {
		s := mkStr(in.bytesOf(a[0]))
		dst := a[1].(iface)
		p, ok := dst.v.(*value)
		if !ok || p == nil {
			return in.mkErr("json: Unmarshal(non-pointer)")
		}
		if s.t != nil || !strings.HasPrefix(s.c, jsonMagic) || len(s.c) != len(jsonMagic)+4 {
			if s.t != nil {
				in.unsupported("json.Unmarshal of symbolic text")
			}
			var doc interface{}
			d := json.NewDecoder(strings.NewReader(s.c))
			d.UseNumber()
			if err := d.Decode(&doc); err != nil || d.More() {
				return in.mkErr("invalid JSON input")
			}
			el := dst.t.Underlying().(*types.Pointer).Elem()
			v, ok := in.jsonInto(doc, el, *p)
			storeVal(p, v)
			if !ok {
				return in.mkErr("json: cannot unmarshal")
			}
			return iface{}
		}
		n := binary.BigEndian.Uint32([]byte(s.c[len(jsonMagic):]))
		if int(n) >= len(in.blobs) {
			return in.mkErr("json: bad token")
		}
		b := in.blobs[n].(iface)
		el := dst.t.Underlying().(*types.Pointer).Elem()
		v, t := b.v, b.t
		if pt, isP := t.Underlying().(*types.Pointer); isP && !types.Identical(el, t) {
			pv := v.(*value)
			if pv == nil {
				return iface{}
			}
			v, t = *pv, pt.Elem()
		}
		in.jsonRead = true
		defer func() { in.jsonRead = false }()
		if !types.Identical(el, t) {
			st, isS := t.Underlying().(*types.Struct)
			dt, isD := el.Underlying().(*types.Struct)
			if !isS || !isD {
				in.unsupported("json token of type " + t.String() + " read as " + el.String())
			}
			doc := map[string]jsonField{}
			jsonFlat(v.(structure), st, doc)
			storeVal(p, in.jsonFill((*p).(structure), dt, doc))
			return iface{}
		}
		storeVal(p, in.deepCopy(v, t, 0))
		return iface{}
	})
	reg("encoding/json.Marshal", marshal)
	reg("encoding/json.Unmarshal", unmarshal)
}

// jsonInto decodes a document of known text into a value of type t.
func (in *Interp) jsonInto(doc interface{}, t types.Type, cur value) (value, bool) {
	if doc == nil {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice, *types.Interface:
			return zero(t), true
		}
		return cur, true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, _ := cur.(*value)
		if p == nil {
			p = new(value)
			*p = zero(u.Elem())
		}
		v, ok := in.jsonInto(doc, u.Elem(), *p)
		storeVal(p, v)
		return p, ok
	case *types.Struct:
		m, ok := doc.(map[string]interface{})
		if !ok || isNamed(t, "math/big", "Int") {
			return cur, false
		}
		r := copyVal(cur).(structure)
		good := true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			for k, d := range m {
				if strings.EqualFold(k, f.Name()) {
					v, ok := in.jsonInto(d, f.Type(), r[i])
					r[i] = v
					good = good && ok
				}
			}
		}
		return r, good
	case *types.Map:
		m, ok := doc.(map[string]interface{})
		if !ok {
			return cur, false
		}
		r, _ := cur.(*Map)
		if r == nil {
			r = newMap()
		}
		good := true
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v, ok := in.jsonInto(m[k], u.Elem(), zero(u.Elem()))
			in.mapSet(r, Str{c: k}, v)
			good = good && ok
		}
		return r, good
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			str, ok := doc.(string)
			if !ok {
				return cur, false
			}
			raw, err := base64.StdEncoding.DecodeString(str)
			if err != nil {
				return cur, false
			}
			return sliceOfTerms(Str{c: string(raw)}.bytes()), true
		}
		l, ok := doc.([]interface{})
		if !ok {
			return cur, false
		}
		r := make(slice, len(l))
		good := true
		for i := range l {
			v, ok := in.jsonInto(l[i], u.Elem(), zero(u.Elem()))
			r[i] = v
			good = good && ok
		}
		return r, good
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if str, ok := doc.(string); ok {
				return Str{c: str}, true
			}
		case u.Info()&types.IsBoolean != 0:
			if b, ok := doc.(bool); ok {
				if b {
					return tTrue, true
				}
				return tFalse, true
			}
		case u.Info()&types.IsInteger != 0:
			if n, ok := doc.(json.Number); ok {
				x, good := new(big.Int).SetString(n.String(), 10)
				w := int32(8 * types.SizesFor("gc", "amd64").Sizeof(u))
				if good {
					lo, hi := new(big.Int), new(big.Int).Lsh(bigOne, uint(w))
					if u.Info()&types.IsUnsigned == 0 {
						hi.Rsh(hi, 1)
						lo.Neg(hi)
					}
					if x.Cmp(lo) >= 0 && x.Cmp(hi) < 0 {
						return KB(w, x), true
					}
				}
			}
		}
		return cur, false
	}
	in.unsupported("json into " + t.String())
	return nil, false
}

// deepCopy copies the exported part of a value, as a JSON round trip does.
func (in *Interp) deepCopy(v value, t types.Type, depth int) value {
	if depth > 30 {
		in.unsupported("deep copy depth")
	}
	switch x := v.(type) {
	case Str:
		if !in.jsonRead {
			return in.jsonText(x)
		}
	case structure:
		if isNamed(t, "math/big", "Int") {
			return v
		}
		st := t.Underlying().(*types.Struct)
		r := make(structure, len(x))
		for i := range x {
			f := st.Field(i)
			if !f.Exported() {
				r[i] = zero(f.Type())
				continue
			}
			if strings.Contains(st.Tag(i), `json:"-"`) {
				r[i] = zero(f.Type())
				continue
			}
			r[i] = in.deepCopy(x[i], f.Type(), depth+1)
		}
		return r
	case *value:
		if x == nil {
			return x
		}
		p := new(value)
		*p = in.deepCopy(*x, t.Underlying().(*types.Pointer).Elem(), depth+1)
		return p
	case slice:
		if x == nil {
			return x
		}
		el := t.Underlying().(*types.Slice).Elem()
		r := make(slice, len(x))
		for i := range x {
			r[i] = in.deepCopy(x[i], el, depth+1)
		}
		return r
	case array:
		el := t.Underlying().(*types.Array).Elem()
		r := make(array, len(x))
		for i := range x {
			r[i] = in.deepCopy(x[i], el, depth+1)
		}
		return r
	case *Map:
		if x == nil {
			return x
		}
		mt := t.Underlying().(*types.Map)
		r := newMap()
		for _, e := range x.entries {
			if !e.deleted {
				in.mapSet(r, in.deepCopy(e.k, mt.Key(), depth+1), in.deepCopy(e.v, mt.Elem(), depth+1))
			}
		}
		return r
	case iface:
		if x.t == nil {
			return x
		}
		in.unsupported("json of an interface value")
	}
	return v
}

// deepEq is reflect.DeepEqual.
func (in *Interp) deepEq(x, y iface, depth int) *Term {
	if x.t == nil || y.t == nil {
		return KBool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return tFalse
	}
	return in.deepEqV(x.v, y.v, x.t, 0)
}

func (in *Interp) deepEqV(x, y value, t types.Type, depth int) *Term {
	if depth > 40 {
		in.unsupported("deep comparison depth")
	}
	c := in.ctx
	switch xv := x.(type) {
	case structure:
		yv := y.(structure)
		st := t.Underlying().(*types.Struct)
		r := tTrue
		for i := range xv {
			r = c.And(r, in.deepEqV(xv[i], yv[i], st.Field(i).Type(), depth+1))
		}
		return r
	case array:
		yv := y.(array)
		r := tTrue
		for i := range xv {
			r = c.And(r, in.deepEqV(xv[i], yv[i], t.Underlying().(*types.Array).Elem(), depth+1))
		}
		return r
	case slice:
		yv := y.(slice)
		if (xv == nil) != (yv == nil) || len(xv) != len(yv) {
			return tFalse
		}
		r := tTrue
		for i := range xv {
			r = c.And(r, in.deepEqV(xv[i], yv[i], t.Underlying().(*types.Slice).Elem(), depth+1))
		}
		return r
	case *value:
		yv := y.(*value)
		if xv == yv {
			return tTrue
		}
		if xv == nil || yv == nil {
			return tFalse
		}
		return in.deepEqV(*xv, *yv, t.Underlying().(*types.Pointer).Elem(), depth+1)
	case iface:
		return in.deepEq(xv, y.(iface), depth+1)
	case *Map:
		yv := y.(*Map)
		if xv == yv {
			return tTrue
		}
		if xv == nil || yv == nil || xv.n != yv.n {
			return tFalse
		}
		r := tTrue
		for _, e := range xv.entries {
			if e.deleted {
				continue
			}
			o := in.mapFind(yv, e.k)
			if o == nil {
				return tFalse
			}
			r = c.And(r, in.deepEqV(e.v, o.v, t.Underlying().(*types.Map).Elem(), depth+1))
		}
		return r
	}
	return in.eqTerm(x, y)
}
