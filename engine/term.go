package main

// SMT terms: hash-consed per path, with simplification.  A term of width 0 is
// a Bool; every other term is a bit-vector of that width.

import (
	"fmt"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULT
	OpULE
	OpSLT
	OpSLE
	OpConcat
	OpExtract
	OpZExt
	OpSExt
)

var opName = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULT: "bvult", OpULE: "bvule", OpSLT: "bvslt", OpSLE: "bvsle", OpConcat: "concat",
}

// Term is an immutable SMT term.
type Term struct {
	op   Op
	w    int32 // 0 = Bool
	id   int32
	hi   int32 // extract
	lo   int32
	k    uint64   // constant value when w <= 64 (Bool: 0/1)
	b    *big.Int // constant value when w > 64
	a    [3]*Term
	name string
	// bounds of the unsigned value, once known (width <= 64)
	lob, upb uint64
	bver     int32
	// what the path condition says about it
	flo, fup uint64
	fact     bool
	c        *Ctx
}

func (t *Term) isConst() bool { return t.op == OpConst }

type tkey struct {
	op         Op
	w, hi, lo  int32
	a0, a1, a2 int32
}

type ckey struct {
	w int32
	k uint64
	s string
}

// Ctx owns the terms of one path.
type Ctx struct {
	nextID int32
	nodes  map[tkey]*Term
	consts map[ckey]*Term
	vars   []*Term
	arith
}

func newCtx() *Ctx {
	return &Ctx{arith: arith{ver: 1}, nextID: 1, nodes: map[tkey]*Term{}, consts: map[ckey]*Term{}}
}

var (
	tTrue  = &Term{op: OpConst, w: 0, k: 1}
	tFalse = &Term{op: OpConst, w: 0, k: 0}
)

const smallN = 1024

var small [4][smallN]*Term

func init() {
	ws := []int32{8, 16, 32, 64}
	for i, w := range ws {
		for k := 0; k < smallN; k++ {
			if w == 8 && k > 255 {
				break
			}
			small[i][k] = &Term{op: OpConst, w: w, k: uint64(k)}
		}
	}
}

func maskw(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

// K makes a constant of width w <= 64.
func K(w int32, k uint64) *Term {
	k &= maskw(w)
	if k < smallN {
		switch w {
		case 8:
			return small[0][k]
		case 16:
			return small[1][k]
		case 32:
			return small[2][k]
		case 64:
			return small[3][k]
		}
	}
	return &Term{op: OpConst, w: w, k: k}
}

func KBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// KB makes a constant of any width from a big.Int (two's complement wrap).
func KB(w int32, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	r := new(big.Int).Mod(v, m)
	if w <= 64 {
		return K(w, r.Uint64())
	}
	return &Term{op: OpConst, w: w, b: r}
}

// cbig gives the unsigned value of a constant.
func (t *Term) cbig() *big.Int {
	if t.w > 64 {
		return t.b
	}
	return new(big.Int).SetUint64(t.k)
}

// csigned gives the signed value of a constant.
func (t *Term) csigned() *big.Int {
	v := new(big.Int).Set(t.cbig())
	if t.w > 0 && v.Bit(int(t.w)-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.w)))
	}
	return v
}

func sext64(w int32, k uint64) int64 {
	sh := uint(64 - w)
	return int64(k<<sh) >> sh
}

func (t *Term) isZero() bool {
	if !t.isConst() {
		return false
	}
	if t.w > 64 {
		return t.b.Sign() == 0
	}
	return t.k == 0
}

func (t *Term) isOnes() bool {
	if !t.isConst() {
		return false
	}
	if t.w > 64 {
		return t.b.BitLen() == int(t.w) && new(big.Int).Add(t.b, big.NewInt(1)).BitLen() == int(t.w)+1
	}
	return t.k == maskw(t.w)
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.op == OpConst && b.op == OpConst && a.w == b.w {
		if a.w > 64 {
			return a.b.Cmp(b.b) == 0
		}
		return a.k == b.k
	}
	return false
}

func (c *Ctx) canon(t *Term) *Term {
	if t == nil || t.op != OpConst {
		return t
	}
	key := ckey{w: t.w, k: t.k}
	if t.w > 64 {
		key.s = t.b.Text(62)
	}
	if r, ok := c.consts[key]; ok {
		return r
	}
	n := *t
	n.id = c.nextID
	c.nextID++
	c.consts[key] = &n
	return &n
}

func (c *Ctx) mk(op Op, w int32, hi, lo int32, as ...*Term) *Term {
	key := tkey{op: op, w: w, hi: hi, lo: lo}
	var arr [3]*Term
	for i, a := range as {
		a = c.canon(a)
		arr[i] = a
		switch i {
		case 0:
			key.a0 = a.id
		case 1:
			key.a1 = a.id
		case 2:
			key.a2 = a.id
		}
	}
	if t, ok := c.nodes[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo: lo, a: arr, id: c.nextID, c: c}
	c.nextID++
	c.nodes[key] = t
	return t
}

func (c *Ctx) Var(name string, w int32) *Term {
	t := &Term{op: OpVar, w: w, id: c.nextID, name: name, c: c}
	c.nextID++
	c.vars = append(c.vars, t)
	return t
}

// ---------- booleans

func (c *Ctx) Not(x *Term) *Term {
	switch x.op {
	case OpConst:
		return KBool(x.k == 0)
	case OpNot:
		return x.a[0]
	case OpULT:
		return c.ULE(x.a[1], x.a[0])
	case OpULE:
		return c.ULT(x.a[1], x.a[0])
	case OpSLT:
		return c.SLE(x.a[1], x.a[0])
	case OpSLE:
		return c.SLT(x.a[1], x.a[0])
	}
	return c.mk(OpNot, 0, 0, 0, x)
}

func (c *Ctx) And(x, y *Term) *Term {
	if x.isConst() {
		if x.k == 0 {
			return tFalse
		}
		return y
	}
	if y.isConst() {
		if y.k == 0 {
			return tFalse
		}
		return x
	}
	if x == y {
		return x
	}
	if c.Not(x) == y {
		return tFalse
	}
	if x.op == OpAnd && (x.a[0] == y || x.a[1] == y) {
		return x
	}
	if y.op == OpAnd && (y.a[0] == x || y.a[1] == x) {
		return y
	}
	return c.mk(OpAnd, 0, 0, 0, x, y)
}

func (c *Ctx) Or(x, y *Term) *Term {
	if x.isConst() {
		if x.k == 1 {
			return tTrue
		}
		return y
	}
	if y.isConst() {
		if y.k == 1 {
			return tTrue
		}
		return x
	}
	if x == y {
		return x
	}
	if c.Not(x) == y {
		return tTrue
	}
	return c.mk(OpOr, 0, 0, 0, x, y)
}

func (c *Ctx) Ite(cond, x, y *Term) *Term {
	if cond.isConst() {
		if cond.k == 1 {
			return x
		}
		return y
	}
	if same(x, y) {
		return x
	}
	if cond.op == OpNot {
		return c.Ite(cond.a[0], y, x)
	}
	if x.w == 0 {
		if x.isConst() {
			if x.k == 1 {
				return c.Or(cond, y)
			}
			return c.And(c.Not(cond), y)
		}
		if y.isConst() {
			if y.k == 1 {
				return c.Or(c.Not(cond), x)
			}
			return c.And(cond, x)
		}
	}
	if x.op == OpIte && x.a[0] == cond {
		x = x.a[1]
	}
	if y.op == OpIte && y.a[0] == cond {
		y = y.a[2]
	}
	if same(x, y) {
		return x
	}
	return c.mk(OpIte, x.w, 0, 0, cond, x, y)
}

// iteConsts: is t an ite-tree whose leaves are all constants (small)?
func iteConsts(t *Term, d int) bool {
	if t.isConst() {
		return true
	}
	if d == 0 || t.op != OpIte {
		return false
	}
	return iteConsts(t.a[1], d-1) && iteConsts(t.a[2], d-1)
}

func (c *Ctx) pushIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OpIte {
		return c.Ite(t.a[0], c.pushIte(t.a[1], f), c.pushIte(t.a[2], f))
	}
	return f(t)
}

func (c *Ctx) Eq(x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if same(x, y) {
		return tTrue
	}
	if x.isConst() && y.isConst() {
		return tFalse
	}
	if x.isConst() {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isConst() {
			if y.k == 1 {
				return x
			}
			return c.Not(x)
		}
		if c.Not(x) == y {
			return tFalse
		}
		return c.mk(OpEq, 0, 0, 0, x, y)
	}
	if y.isConst() {
		switch x.op {
		case OpZExt:
			in := x.a[0]
			v := y.cbig()
			if v.BitLen() > int(in.w) {
				return tFalse
			}
			return c.Eq(in, KB(in.w, v))
		case OpSExt:
			in := x.a[0]
			k := KB(in.w, y.cbig())
			if KB(x.w, k.csigned()).cbig().Cmp(y.cbig()) != 0 {
				return tFalse
			}
			return c.Eq(in, k)
		case OpIte:
			if iteConsts(x, 4) {
				return c.pushIte(x, func(t *Term) *Term { return KBool(same(t, y)) })
			}
			if x.a[1].isConst() && !same(x.a[1], y) {
				return c.And(c.Not(x.a[0]), c.Eq(x.a[2], y))
			}
			if x.a[2].isConst() && !same(x.a[2], y) {
				return c.And(x.a[0], c.Eq(x.a[1], y))
			}
		case OpAdd:
			if x.a[1].isConst() {
				return c.Eq(x.a[0], c.Sub(y, x.a[1]))
			}
		case OpBXor:
			if x.a[1].isConst() {
				return c.Eq(x.a[0], c.BXor(y, x.a[1]))
			}
		case OpConcat:
			lw := x.a[1].w
			h := c.Eq(x.a[0], c.Extract(y, y.w-1, lw))
			if h == tFalse {
				return tFalse
			}
			return c.And(h, c.Eq(x.a[1], c.Extract(y, lw-1, 0)))
		case OpNeg:
			return c.Eq(x.a[0], c.Neg(y))
		case OpSub:
			if y.isZero() {
				return c.Eq(x.a[0], x.a[1])
			}
		case OpBNot:
			return c.Eq(x.a[0], c.BNot(y))
		}
		// disjoint ranges
		if x.w <= 64 {
			if l, u := bounds(x); y.k > u || y.k < l {
				return tFalse
			} else if l == u {
				return tTrue
			}
		}
		if r := c.eqByRange(x, y); r != nil {
			return r
		}
		return c.mk(OpEq, 0, 0, 0, x, y)
	}
	if x.op == OpZExt && y.op == OpZExt {
		a, b := x.a[0], y.a[0]
		if a.w == b.w {
			return c.Eq(a, b)
		}
		if a.w < b.w {
			return c.Eq(c.ZExt(a, b.w), b)
		}
		return c.Eq(a, c.ZExt(b, a.w))
	}
	if x.op == OpSExt && y.op == OpSExt {
		a, b := x.a[0], y.a[0]
		if a.w == b.w {
			return c.Eq(a, b)
		}
		if a.w < b.w {
			return c.Eq(c.SExt(a, b.w), b)
		}
		return c.Eq(a, c.SExt(b, a.w))
	}
	if x.op == OpConcat && y.op == OpConcat && x.a[0].w == y.a[0].w {
		return c.And(c.Eq(x.a[0], y.a[0]), c.Eq(x.a[1], y.a[1]))
	}
	if x.op == OpAdd && y.op == OpAdd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if same(x.a[i], y.a[j]) {
					return c.Eq(x.a[1-i], y.a[1-j])
				}
			}
		}
	}
	if x.op == OpAdd && (x.a[0] == y || x.a[1] == y) {
		o := x.a[0]
		if o == y {
			o = x.a[1]
		}
		return c.Eq(o, KB(o.w, big.NewInt(0)))
	}
	if y.op == OpAdd && (y.a[0] == x || y.a[1] == x) {
		return c.Eq(y, x)
	}
	if d := c.linear(x, y, true); d != nil {
		return c.Eq(d, K(d.w, 0))
	}
	if r := c.eqByRange(x, y); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpEq, 0, 0, 0, x, y)
}

// bounds returns a cheap lower and upper bound of an unsigned term of width <= 64.
func bounds(t *Term) (uint64, uint64) {
	if t.op == OpConst {
		return t.k, t.k
	}
	if t.c == nil {
		return bounds1(t)
	}
	if t.bver != t.c.ver {
		t.bver = t.c.ver
		t.lob, t.upb = 0, maskw(t.w)
		l, u := bounds1(t)
		if t.fact {
			if t.flo > l {
				l = t.flo
			}
			if t.fup < u {
				u = t.fup
			}
		}
		t.lob, t.upb = l, u
	}
	return t.lob, t.upb
}

func bounds1(t *Term) (uint64, uint64) {
	m := maskw(t.w)
	switch t.op {
	case OpZExt:
		return bounds(t.a[0])
	case OpIte:
		al, au := branchBounds(t, 1)
		bl, bu := branchBounds(t, 2)
		if bl < al {
			al = bl
		}
		if bu > au {
			au = bu
		}
		if q := t.a[0]; (q.op == OpULT || q.op == OpULE) && q.a[0].w == t.w && q.a[0] == t.a[1] && q.a[1] == t.a[2] {
			// the smaller of the two
			if _, v := bounds(t.a[1]); v < au {
				au = v
			}
			if _, v := bounds(t.a[2]); v < au {
				au = v
			}
		}
		return al, au
	case OpBAnd:
		_, a := bounds(t.a[0])
		_, b := bounds(t.a[1])
		if a < b {
			return 0, a
		}
		return 0, b
	case OpURem:
		if t.a[1].isConst() && t.a[1].k > 0 {
			return 0, t.a[1].k - 1
		}
	case OpUDiv:
		if k := t.a[1]; k.isConst() && k.k > 0 {
			l, u := bounds(t.a[0])
			return l / k.k, u / k.k
		}
	case OpConcat:
		al, au := bounds(t.a[0])
		bl, bu := bounds(t.a[1])
		n := uint(t.a[1].w)
		return al<<n | bl, au<<n | bu
	case OpExtract:
		if x := t.a[0]; x.w <= 64 {
			l, u := bounds(x)
			if u>>uint(t.lo) <= m {
				return l >> uint(t.lo), u >> uint(t.lo)
			}
		}
	case OpAdd:
		al, au := bounds(t.a[0])
		bl, bu := bounds(t.a[1])
		if s := au + bu; s >= au && s <= m {
			return al + bl, s
		}
		return linBounds(t)
	case OpSub:
		al, au := bounds(t.a[0])
		bl, bu := bounds(t.a[1])
		if al >= bu {
			return al - bu, au - bl
		}
		return linBounds(t)
	case OpNeg:
		return linBounds(t)
	case OpMul:
		al, au := bounds(t.a[0])
		bl, bu := bounds(t.a[1])
		hi, lo := bits.Mul64(au, bu)
		if hi == 0 && lo <= m {
			return al * bl, lo
		}
	}
	return 0, m
}

func umax(t *Term) uint64 { _, u := bounds(t); return u }

func umin(t *Term) uint64 { l, _ := bounds(t); return l }

func (c *Ctx) ULT(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return KBool(x.cbig().Cmp(y.cbig()) < 0)
	}
	if same(x, y) || y.isZero() || x.isOnes() {
		return tFalse
	}
	if x.w <= 64 {
		if umax(x) < umin(y) {
			return tTrue
		}
		if umin(x) >= umax(y) {
			return tFalse
		}
		if lo, hi, ok := c.diff(x, y, decidesLess); ok {
			if hi < 0 {
				return tTrue
			}
			if lo >= 0 {
				return tFalse
			}
		}
	}
	if y.isConst() && iteConsts(x, 4) {
		return c.pushIte(x, func(t *Term) *Term { return c.ULT(t, y) })
	}
	if x.isConst() && iteConsts(y, 4) {
		return c.pushIte(y, func(t *Term) *Term { return c.ULT(x, t) })
	}
	if x.op == OpZExt && y.op == OpZExt && x.a[0].w == y.a[0].w {
		return c.ULT(x.a[0], y.a[0])
	}
	if x.op == OpZExt && y.isConst() {
		if y.cbig().BitLen() > int(x.a[0].w) {
			return tTrue
		}
		return c.ULT(x.a[0], KB(x.a[0].w, y.cbig()))
	}
	if y.op == OpZExt && x.isConst() {
		if x.cbig().BitLen() > int(y.a[0].w) {
			return tFalse
		}
		return c.ULT(KB(y.a[0].w, x.cbig()), y.a[0])
	}
	if y.isConst() && y.cbig().Cmp(big.NewInt(1)) == 0 {
		return c.Eq(x, KB(x.w, big.NewInt(0)))
	}
	return c.mk(OpULT, 0, 0, 0, x, y)
}

func (c *Ctx) ULE(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return KBool(x.cbig().Cmp(y.cbig()) <= 0)
	}
	if same(x, y) || x.isZero() || y.isOnes() {
		return tTrue
	}
	if x.w <= 64 {
		if umax(x) <= umin(y) {
			return tTrue
		}
		if umin(x) > umax(y) {
			return tFalse
		}
		if lo, hi, ok := c.diff(x, y, decidesLessEq); ok {
			if hi <= 0 {
				return tTrue
			}
			if lo > 0 {
				return tFalse
			}
		}
	}
	if y.isConst() && iteConsts(x, 4) {
		return c.pushIte(x, func(t *Term) *Term { return c.ULE(t, y) })
	}
	if x.isConst() && iteConsts(y, 4) {
		return c.pushIte(y, func(t *Term) *Term { return c.ULE(x, t) })
	}
	if x.op == OpZExt && y.op == OpZExt && x.a[0].w == y.a[0].w {
		return c.ULE(x.a[0], y.a[0])
	}
	if x.op == OpZExt && y.isConst() {
		if y.cbig().BitLen() > int(x.a[0].w) {
			return tTrue
		}
		return c.ULE(x.a[0], KB(x.a[0].w, y.cbig()))
	}
	if y.op == OpZExt && x.isConst() {
		if x.cbig().BitLen() > int(y.a[0].w) {
			return tFalse
		}
		return c.ULE(KB(y.a[0].w, x.cbig()), y.a[0])
	}
	if y.isZero() {
		return c.Eq(x, y)
	}
	return c.mk(OpULE, 0, 0, 0, x, y)
}

// signKnown: 1 = known non-negative, -1 known negative, 0 unknown
func signKnown(t *Term) int {
	switch t.op {
	case OpConst:
		if t.csigned().Sign() < 0 {
			return -1
		}
		return 1
	case OpZExt:
		return 1
	case OpSExt:
		return signKnown(t.a[0])
	case OpIte:
		a, b := signKnown(t.a[1]), signKnown(t.a[2])
		if a == b {
			return a
		}
	case OpConcat:
		return signKnown(t.a[0])
	case OpBAnd:
		if signKnown(t.a[0]) == 1 || signKnown(t.a[1]) == 1 {
			return 1
		}
	}
	if t.w <= 64 && t.w > 0 && umax(t) <= maskw(t.w)>>1 {
		return 1
	}
	return 0
}

func (c *Ctx) SLT(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return KBool(x.csigned().Cmp(y.csigned()) < 0)
	}
	if same(x, y) {
		return tFalse
	}
	sx, sy := signKnown(x), signKnown(y)
	if sx == 1 && sy == 1 {
		return c.ULT(x, y)
	}
	if sx == 1 && sy == -1 {
		return tFalse
	}
	if sx == -1 && sy == 1 {
		return tTrue
	}
	if y.isConst() && iteConsts(x, 4) {
		return c.pushIte(x, func(t *Term) *Term { return c.SLT(t, y) })
	}
	if x.isConst() && iteConsts(y, 4) {
		return c.pushIte(y, func(t *Term) *Term { return c.SLT(x, t) })
	}
	if x.op == OpSExt && y.op == OpSExt && x.a[0].w == y.a[0].w {
		return c.SLT(x.a[0], y.a[0])
	}
	if x.op == OpSExt && y.isConst() && fitsSigned(y.csigned(), x.a[0].w) {
		return c.SLT(x.a[0], KB(x.a[0].w, y.csigned()))
	}
	if y.op == OpSExt && x.isConst() && fitsSigned(x.csigned(), y.a[0].w) {
		return c.SLT(KB(y.a[0].w, x.csigned()), y.a[0])
	}
	return c.mk(OpSLT, 0, 0, 0, x, y)
}

func fitsSigned(v *big.Int, w int32) bool {
	if v.Sign() >= 0 {
		return v.BitLen() < int(w)
	}
	return new(big.Int).Not(v).BitLen() < int(w)
}

func (c *Ctx) SLE(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return KBool(x.csigned().Cmp(y.csigned()) <= 0)
	}
	if same(x, y) {
		return tTrue
	}
	sx, sy := signKnown(x), signKnown(y)
	if sx == 1 && sy == 1 {
		return c.ULE(x, y)
	}
	if sx == 1 && sy == -1 {
		return tFalse
	}
	if sx == -1 && sy == 1 {
		return tTrue
	}
	if y.isConst() && iteConsts(x, 4) {
		return c.pushIte(x, func(t *Term) *Term { return c.SLE(t, y) })
	}
	if x.isConst() && iteConsts(y, 4) {
		return c.pushIte(y, func(t *Term) *Term { return c.SLE(x, t) })
	}
	if x.op == OpSExt && y.op == OpSExt && x.a[0].w == y.a[0].w {
		return c.SLE(x.a[0], y.a[0])
	}
	if x.op == OpSExt && y.isConst() && fitsSigned(y.csigned(), x.a[0].w) {
		return c.SLE(x.a[0], KB(x.a[0].w, y.csigned()))
	}
	if y.op == OpSExt && x.isConst() && fitsSigned(x.csigned(), y.a[0].w) {
		return c.SLE(KB(y.a[0].w, x.csigned()), y.a[0])
	}
	return c.mk(OpSLE, 0, 0, 0, x, y)
}

// ---------- arithmetic

func (c *Ctx) cbin(w int32, x, y *Term, f64 func(a, b uint64) uint64, fb func(a, b *big.Int) *big.Int) *Term {
	if w <= 64 {
		return K(w, f64(x.k, y.k))
	}
	return KB(w, fb(x.b, y.b))
}

func (c *Ctx) Add(x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return c.cbin(w, x, y, func(a, b uint64) uint64 { return a + b }, func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) })
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isZero() {
		return x
	}
	if y.isConst() {
		if x.op == OpAdd && x.a[1].isConst() {
			return c.Add(x.a[0], c.Add(x.a[1], y))
		}
		return c.mk(OpAdd, w, 0, 0, x, y)
	}
	if x.op == OpSub && same(x.a[1], y) {
		return x.a[0]
	}
	if y.op == OpSub && same(y.a[1], x) {
		return y.a[0]
	}
	if y.op == OpNeg {
		return c.Sub(x, y.a[0])
	}
	if x.op == OpNeg {
		return c.Sub(y, x.a[0])
	}
	// float constants outwards
	if x.op == OpAdd && x.a[1].isConst() {
		return c.Add(c.Add(x.a[0], y), x.a[1])
	}
	if y.op == OpAdd && y.a[1].isConst() {
		return c.Add(c.Add(x, y.a[0]), y.a[1])
	}
	if r := c.linear(x, y, false); r != nil {
		return r
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpAdd, w, 0, 0, x, y)
}

// linTerm is one summand of a linear form.
type linTerm struct {
	t *Term
	k int64
}

// collect adds the summands of t, s times, to ls (modulo the width).
func (c *Ctx) collect(ls []linTerm, t *Term, s int64, k *uint64, depth int) []linTerm {
	if t.isConst() {
		*k += uint64(s) * t.k
		return ls
	}
	const lim = 1 << 24
	if depth > 0 && len(ls) < 40 {
		switch t.op {
		case OpAdd:
			ls = c.collect(ls, t.a[0], s, k, depth-1)
			return c.collect(ls, t.a[1], s, k, depth-1)
		case OpSub:
			ls = c.collect(ls, t.a[0], s, k, depth-1)
			return c.collect(ls, t.a[1], -s, k, depth-1)
		case OpNeg:
			return c.collect(ls, t.a[0], -s, k, depth-1)
		case OpMul:
			if t.a[1].isConst() && t.a[1].k < lim && s < lim && s > -lim {
				return c.collect(ls, t.a[0], s*int64(t.a[1].k), k, depth-1)
			}
		case OpConcat:
			// a shift to the left
			if z := t.a[1]; z.isZero() && z.w < 24 && s < lim && s > -lim {
				in := t.a[0]
				if in.op == OpExtract && in.lo == 0 && in.a[0].w == t.w {
					in = in.a[0]
				} else {
					in = c.ZExt(in, t.w)
				}
				return c.collect(ls, in, s<<uint(z.w), k, depth-1)
			}
		case OpZExt:
			in := t.a[0]
			if in.op == OpConcat && in.a[1].isZero() && in.a[1].w < 24 && s < lim && s > -lim {
				return c.collect(ls, c.ZExt(in.a[0], t.w), s<<uint(in.a[1].w), k, depth-1)
			}
		}
	}
	for i := range ls {
		if ls[i].t == t {
			ls[i].k += s
			return ls
		}
	}
	return append(ls, linTerm{t, s})
}

// linear builds x+y (x-y if sub) from its summands if some of them cancel out
// or come together; otherwise it returns nil.
func (c *Ctx) linear(x, y *Term, sub bool) *Term {
	if x.w > 64 || (x.op != OpAdd && x.op != OpSub && y.op != OpAdd && y.op != OpSub && x.op != OpMul && y.op != OpMul) {
		return nil
	}
	var k uint64
	var buf [40]linTerm
	s := int64(1)
	if sub {
		s = -1
	}
	ls := c.collect(buf[:0], x, 1, &k, 12)
	n := len(ls)
	var k2 uint64
	var buf2 [40]linTerm
	n2 := len(c.collect(buf2[:0], y, s, &k2, 12))
	ls = c.collect(ls, y, s, &k, 12)
	left := 0
	for _, l := range ls {
		if l.k != 0 {
			left++
		}
	}
	if left >= n+n2 {
		return nil
	}
	var pos, neg *Term
	for _, l := range ls {
		if l.k == 0 {
			continue
		}
		m, p := l.k, &pos
		if m < 0 {
			m, p = -m, &neg
		}
		t := c.Mul(l.t, KB(x.w, big.NewInt(m)))
		if *p == nil {
			*p = t
		} else {
			*p = c.Add(*p, t)
		}
	}
	var r *Term
	kc := K(x.w, k&maskw(x.w))
	switch {
	case pos == nil && neg == nil:
		return kc
	case neg == nil:
		r = pos
	case pos == nil:
		r = c.Neg(neg)
	default:
		r = c.Sub(pos, neg)
	}
	return c.Add(r, kc)
}

func (c *Ctx) Neg(x *Term) *Term {
	if x.isConst() {
		return KB(x.w, new(big.Int).Neg(x.cbig()))
	}
	if x.op == OpNeg {
		return x.a[0]
	}
	if x.op == OpSub {
		return c.Sub(x.a[1], x.a[0])
	}
	return c.mk(OpNeg, x.w, 0, 0, x)
}

func (c *Ctx) Sub(x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return c.cbin(w, x, y, func(a, b uint64) uint64 { return a - b }, func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) })
	}
	if same(x, y) {
		return KB(w, big.NewInt(0))
	}
	if y.isConst() {
		return c.Add(x, c.Neg(y))
	}
	if x.isZero() {
		return c.Neg(y)
	}
	if y.op == OpNeg {
		return c.Add(x, y.a[0])
	}
	if x.op == OpAdd {
		if same(x.a[0], y) {
			return x.a[1]
		}
		if same(x.a[1], y) {
			return x.a[0]
		}
		if x.a[1].isConst() {
			return c.Add(c.Sub(x.a[0], y), x.a[1])
		}
	}
	if y.op == OpAdd {
		if same(y.a[0], x) {
			return c.Neg(y.a[1])
		}
		if same(y.a[1], x) {
			return c.Neg(y.a[0])
		}
		if y.a[1].isConst() {
			return c.Add(c.Sub(x, y.a[0]), c.Neg(y.a[1]))
		}
	}
	if y.op == OpSub && same(y.a[0], x) {
		return y.a[1]
	}
	if x.op == OpSub && same(x.a[0], y) {
		return c.Neg(x.a[1])
	}
	if r := c.linear(x, y, true); r != nil {
		return r
	}
	return c.mk(OpSub, w, 0, 0, x, y)
}

func (c *Ctx) Mul(x, y *Term) *Term {
	w := x.w
	if x.isConst() && y.isConst() {
		return c.cbin(w, x, y, func(a, b uint64) uint64 { return a * b }, func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) })
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if y.isZero() {
			return y
		}
		v := y.cbig()
		if v.Cmp(big.NewInt(1)) == 0 {
			return x
		}
		if n := v.BitLen() - 1; new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
			return c.shlC(x, int32(n))
		}
		return c.mk(OpMul, w, 0, 0, x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpMul, w, 0, 0, x, y)
}

// division: the caller guarantees a non-zero divisor on the path (SMT semantics for 0 otherwise)
func (c *Ctx) UDiv(x, y *Term) *Term {
	if x.isConst() && y.isConst() && !y.isZero() {
		return KB(x.w, new(big.Int).Quo(x.cbig(), y.cbig()))
	}
	if y.isConst() && !y.isZero() {
		v := y.cbig()
		n := v.BitLen() - 1
		if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
			return c.lshrC(x, int32(n))
		}
	}
	if y.isConst() && x.w <= 64 && y.k > 0 {
		if umax(x) < y.k {
			return K(x.w, 0)
		}
		if x.op == OpMul && x.a[1].isConst() && x.a[1].k == y.k {
			if hi, lo := bits.Mul64(umax(x.a[0]), y.k); hi == 0 && lo <= maskw(x.w) {
				return x.a[0]
			}
		}
	}
	return c.mk(OpUDiv, x.w, 0, 0, x, y)
}

func (c *Ctx) URem(x, y *Term) *Term {
	if x.isConst() && y.isConst() && !y.isZero() {
		return KB(x.w, new(big.Int).Rem(x.cbig(), y.cbig()))
	}
	if y.isConst() && !y.isZero() {
		v := y.cbig()
		n := v.BitLen() - 1
		if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
			if n == 0 {
				return KB(x.w, big.NewInt(0))
			}
			return c.ZExt(c.Extract(x, int32(n-1), 0), x.w)
		}
	}
	return c.mk(OpURem, x.w, 0, 0, x, y)
}

func (c *Ctx) SDiv(x, y *Term) *Term {
	if x.isConst() && y.isConst() && !y.isZero() {
		return KB(x.w, new(big.Int).Quo(x.csigned(), y.csigned()))
	}
	if signKnown(x) == 1 && signKnown(y) == 1 {
		return c.UDiv(x, y)
	}
	return c.mk(OpSDiv, x.w, 0, 0, x, y)
}

func (c *Ctx) SRem(x, y *Term) *Term {
	if x.isConst() && y.isConst() && !y.isZero() {
		return KB(x.w, new(big.Int).Rem(x.csigned(), y.csigned()))
	}
	if signKnown(x) == 1 && signKnown(y) == 1 {
		return c.URem(x, y)
	}
	return c.mk(OpSRem, x.w, 0, 0, x, y)
}

func (c *Ctx) BNot(x *Term) *Term {
	if x.isConst() {
		return KB(x.w, new(big.Int).Not(x.cbig()))
	}
	if x.op == OpBNot {
		return x.a[0]
	}
	return c.mk(OpBNot, x.w, 0, 0, x)
}

// parts flattens concat/zext/const structure into a most-significant-first list.
func (c *Ctx) parts(t *Term, out []*Term) []*Term {
	switch t.op {
	case OpConcat:
		return c.parts(t.a[1], c.parts(t.a[0], out))
	case OpZExt:
		out = append(out, KB(t.w-t.a[0].w, big.NewInt(0)))
		return c.parts(t.a[0], out)
	}
	return append(out, t)
}

// mergeDisjoint rewrites x|y when at every bit position one side is a constant zero.
func (c *Ctx) mergeDisjoint(x, y *Term) *Term {
	isP := func(t *Term) bool { return t.op == OpConcat || t.op == OpZExt }
	if !isP(x) && !isP(y) {
		return nil
	}
	px, py := c.parts(x, nil), c.parts(y, nil)
	var res []*Term
	i, j := 0, 0
	var cx, cy *Term
	for {
		if cx == nil {
			if i == len(px) {
				break
			}
			cx = px[i]
			i++
		}
		if cy == nil {
			cy = py[j]
			j++
		}
		n := cx.w
		if cy.w < n {
			n = cy.w
		}
		split := func(t *Term) (*Term, *Term) {
			if t.w == n {
				return t, nil
			}
			return c.Extract(t, t.w-1, t.w-n), c.Extract(t, t.w-n-1, 0)
		}
		hx, rx := split(cx)
		hy, ry := split(cy)
		if hx.isZero() {
			res = append(res, hy)
		} else if hy.isZero() {
			res = append(res, hx)
		} else {
			return nil
		}
		cx, cy = rx, ry
	}
	r := res[0]
	for _, p := range res[1:] {
		r = c.Concat(r, p)
	}
	return r
}

func (c *Ctx) BAnd(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.cbin(x.w, x, y, func(a, b uint64) uint64 { return a & b }, func(a, b *big.Int) *big.Int { return new(big.Int).And(a, b) })
	}
	if x.isConst() {
		x, y = y, x
	}
	if same(x, y) {
		return x
	}
	if y.isZero() {
		return y
	}
	if y.isOnes() {
		return x
	}
	if y.isConst() {
		// low mask 2^n-1
		v := y.cbig()
		n := v.BitLen()
		if new(big.Int).Add(v, big.NewInt(1)).BitLen() == n+1 && new(big.Int).And(v, new(big.Int).Add(v, big.NewInt(1))).Sign() == 0 {
			return c.ZExt(c.Extract(x, int32(n-1), 0), x.w)
		}
		return c.mk(OpBAnd, x.w, 0, 0, x, y)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpBAnd, x.w, 0, 0, x, y)
}

func (c *Ctx) BOr(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.cbin(x.w, x, y, func(a, b uint64) uint64 { return a | b }, func(a, b *big.Int) *big.Int { return new(big.Int).Or(a, b) })
	}
	if x.isConst() {
		x, y = y, x
	}
	if same(x, y) {
		return x
	}
	if y.isZero() {
		return x
	}
	if y.isOnes() {
		return y
	}
	if r := c.mergeDisjoint(x, y); r != nil {
		return r
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpBOr, x.w, 0, 0, x, y)
}

func (c *Ctx) BXor(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.cbin(x.w, x, y, func(a, b uint64) uint64 { return a ^ b }, func(a, b *big.Int) *big.Int { return new(big.Int).Xor(a, b) })
	}
	if x.isConst() {
		x, y = y, x
	}
	if same(x, y) {
		return KB(x.w, big.NewInt(0))
	}
	if y.isZero() {
		return x
	}
	if y.isOnes() {
		return c.BNot(x)
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return c.mk(OpBXor, x.w, 0, 0, x, y)
}

func (c *Ctx) shlC(x *Term, n int32) *Term {
	if n == 0 {
		return x
	}
	if n >= x.w {
		return KB(x.w, big.NewInt(0))
	}
	return c.Concat(c.Extract(x, x.w-1-n, 0), KB(n, big.NewInt(0)))
}

func (c *Ctx) lshrC(x *Term, n int32) *Term {
	if n == 0 {
		return x
	}
	if n >= x.w {
		return KB(x.w, big.NewInt(0))
	}
	return c.ZExt(c.Extract(x, x.w-1, n), x.w)
}

func (c *Ctx) Shl(x, y *Term) *Term {
	if y.isConst() {
		v := y.cbig()
		if v.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return KB(x.w, big.NewInt(0))
		}
		return c.shlC(x, int32(v.Int64()))
	}
	return c.mk(OpShl, x.w, 0, 0, x, y)
}

func (c *Ctx) LShr(x, y *Term) *Term {
	if y.isConst() {
		v := y.cbig()
		if v.Cmp(big.NewInt(int64(x.w))) >= 0 {
			return KB(x.w, big.NewInt(0))
		}
		return c.lshrC(x, int32(v.Int64()))
	}
	return c.mk(OpLShr, x.w, 0, 0, x, y)
}

func (c *Ctx) AShr(x, y *Term) *Term {
	if y.isConst() {
		v := y.cbig()
		n := x.w - 1
		if v.Cmp(big.NewInt(int64(x.w))) < 0 {
			n = int32(v.Int64())
		}
		if n == 0 {
			return x
		}
		return c.SExt(c.Extract(x, x.w-1, n), x.w)
	}
	return c.mk(OpAShr, x.w, 0, 0, x, y)
}

// ---------- structure

func (c *Ctx) Extract(x *Term, hi, lo int32) *Term {
	if hi == x.w-1 && lo == 0 {
		return x
	}
	w := hi - lo + 1
	if w <= 0 || hi >= x.w {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, x.w))
	}
	switch x.op {
	case OpConst:
		if x.w <= 64 {
			return K(w, x.k>>uint(lo))
		}
		return KB(w, new(big.Int).Rsh(x.b, uint(lo)))
	case OpExtract:
		return c.Extract(x.a[0], hi+x.lo, lo+x.lo)
	case OpConcat:
		lw := x.a[1].w
		if hi < lw {
			return c.Extract(x.a[1], hi, lo)
		}
		if lo >= lw {
			return c.Extract(x.a[0], hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(x.a[0], hi-lw, 0), c.Extract(x.a[1], lw-1, lo))
	case OpZExt:
		iw := x.a[0].w
		if hi < iw {
			return c.Extract(x.a[0], hi, lo)
		}
		if lo >= iw {
			return KB(w, big.NewInt(0))
		}
		return c.ZExt(c.Extract(x.a[0], iw-1, lo), w)
	case OpSExt:
		iw := x.a[0].w
		if hi < iw {
			return c.Extract(x.a[0], hi, lo)
		}
		if lo == 0 {
			return c.SExt(x.a[0], w)
		}
		if lo < iw {
			return c.SExt(c.Extract(x.a[0], iw-1, lo), w)
		}
	case OpIte:
		if iteConsts(x, 4) {
			return c.pushIte(x, func(t *Term) *Term { return c.Extract(t, hi, lo) })
		}
	case OpBAnd:
		return c.BAnd(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OpBOr:
		return c.BOr(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OpBXor:
		return c.BXor(c.Extract(x.a[0], hi, lo), c.Extract(x.a[1], hi, lo))
	case OpBNot:
		return c.BNot(c.Extract(x.a[0], hi, lo))
	case OpAdd:
		if lo == 0 {
			return c.Add(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OpSub:
		if lo == 0 {
			return c.Sub(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	case OpNeg:
		if lo == 0 {
			return c.Neg(c.Extract(x.a[0], hi, 0))
		}
	case OpMul:
		if lo == 0 {
			return c.Mul(c.Extract(x.a[0], hi, 0), c.Extract(x.a[1], hi, 0))
		}
	}
	return c.mk(OpExtract, w, hi, lo, x)
}

func (c *Ctx) Concat(x, y *Term) *Term {
	w := x.w + y.w
	if x.isConst() && y.isConst() {
		v := new(big.Int).Lsh(x.cbig(), uint(y.w))
		return KB(w, v.Or(v, y.cbig()))
	}
	if x.isZero() {
		return c.ZExt(y, w)
	}
	if x.op == OpZExt {
		return c.ZExt(c.Concat(x.a[0], y), w)
	}
	// reassociate to the left: concat(x, concat(a,b)) = concat(concat(x,a),b)
	if y.op == OpConcat {
		return c.Concat(c.Concat(x, y.a[0]), y.a[1])
	}
	if x.op == OpConcat && x.a[1].isConst() && y.isConst() {
		return c.Concat(x.a[0], c.Concat(x.a[1], y))
	}
	xx := x
	if xx.op == OpConcat {
		xx = x.a[1]
	}
	if xx.op == OpExtract && y.op == OpExtract && xx.a[0] == y.a[0] && xx.lo == y.hi+1 {
		m := c.Extract(xx.a[0], xx.hi, y.lo)
		if x.op == OpConcat {
			return c.Concat(x.a[0], m)
		}
		return m
	}
	return c.mk(OpConcat, w, 0, 0, x, y)
}

func (c *Ctx) ZExt(x *Term, w int32) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		panic("zext narrower")
	}
	if x.isConst() {
		return KB(w, x.cbig())
	}
	if x.op == OpZExt {
		return c.ZExt(x.a[0], w)
	}
	if x.op == OpIte && iteConsts(x, 3) {
		return c.pushIte(x, func(t *Term) *Term { return c.ZExt(t, w) })
	}
	return c.mk(OpZExt, w, 0, 0, x)
}

func (c *Ctx) SExt(x *Term, w int32) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return KB(w, x.csigned())
	}
	if x.op == OpSExt {
		return c.SExt(x.a[0], w)
	}
	if signKnown(x) == 1 {
		return c.ZExt(x, w)
	}
	if x.op == OpIte && iteConsts(x, 3) {
		return c.pushIte(x, func(t *Term) *Term { return c.SExt(t, w) })
	}
	return c.mk(OpSExt, w, 0, 0, x)
}

// resize converts between integer widths (Go conversion semantics).
func (c *Ctx) resize(x *Term, w int32, signed bool) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return c.Extract(x, w-1, 0)
	}
	if signed {
		return c.SExt(x, w)
	}
	return c.ZExt(x, w)
}

// BoolToBV gives a 1/0 vector.
func (c *Ctx) BoolToBV(b *Term, w int32) *Term { return c.Ite(b, K(w, 1), K(w, 0)) }

// ---------- evaluation under a model

// Model maps variable names to values.
type Model map[*Term]*big.Int

type evaluator struct {
	m    Model
	memo map[*Term]*big.Int
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[*Term]*big.Int{}} }

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func toSigned(v *big.Int, w int32) *big.Int {
	if v.Bit(int(w)-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return v
}

func wrap(v *big.Int, w int32) *big.Int {
	m := new(big.Int).Lsh(bigOne, uint(w))
	return new(big.Int).Mod(v, m)
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

func (e *evaluator) eval(t *Term) *big.Int {
	switch t.op {
	case OpConst:
		return t.cbig()
	case OpVar:
		if v, ok := e.m[t]; ok {
			return v
		}
		return bigZero
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r *big.Int
	x := t.a[0]
	switch t.op {
	case OpNot:
		r = b2i(e.eval(x).Sign() == 0)
	case OpAnd:
		r = b2i(e.eval(x).Sign() != 0 && e.eval(t.a[1]).Sign() != 0)
	case OpOr:
		r = b2i(e.eval(x).Sign() != 0 || e.eval(t.a[1]).Sign() != 0)
	case OpEq:
		r = b2i(e.eval(x).Cmp(e.eval(t.a[1])) == 0)
	case OpIte:
		if e.eval(x).Sign() != 0 {
			r = e.eval(t.a[1])
		} else {
			r = e.eval(t.a[2])
		}
	case OpExtract:
		r = wrap(new(big.Int).Rsh(e.eval(x), uint(t.lo)), t.w)
	case OpZExt:
		r = e.eval(x)
	case OpSExt:
		r = wrap(toSigned(e.eval(x), x.w), t.w)
	case OpBNot:
		r = wrap(new(big.Int).Not(e.eval(x)), t.w)
	case OpNeg:
		r = wrap(new(big.Int).Neg(e.eval(x)), t.w)
	default:
		a, b := e.eval(x), e.eval(t.a[1])
		n := new(big.Int)
		switch t.op {
		case OpAdd:
			r = wrap(n.Add(a, b), t.w)
		case OpSub:
			r = wrap(n.Sub(a, b), t.w)
		case OpMul:
			r = wrap(n.Mul(a, b), t.w)
		case OpUDiv:
			if b.Sign() == 0 {
				r = wrap(big.NewInt(-1), t.w)
			} else {
				r = n.Quo(a, b)
			}
		case OpURem:
			if b.Sign() == 0 {
				r = a
			} else {
				r = n.Rem(a, b)
			}
		case OpSDiv:
			sa, sb := toSigned(a, t.w), toSigned(b, t.w)
			if sb.Sign() == 0 {
				if sa.Sign() >= 0 {
					r = wrap(big.NewInt(-1), t.w)
				} else {
					r = bigOne
				}
			} else {
				r = wrap(n.Quo(sa, sb), t.w)
			}
		case OpSRem:
			sa, sb := toSigned(a, t.w), toSigned(b, t.w)
			if sb.Sign() == 0 {
				r = a
			} else {
				r = wrap(n.Rem(sa, sb), t.w)
			}
		case OpBAnd:
			r = n.And(a, b)
		case OpBOr:
			r = n.Or(a, b)
		case OpBXor:
			r = n.Xor(a, b)
		case OpShl:
			if b.Cmp(big.NewInt(int64(t.w))) >= 0 {
				r = bigZero
			} else {
				r = wrap(n.Lsh(a, uint(b.Uint64())), t.w)
			}
		case OpLShr:
			if b.Cmp(big.NewInt(int64(t.w))) >= 0 {
				r = bigZero
			} else {
				r = n.Rsh(a, uint(b.Uint64()))
			}
		case OpAShr:
			s := uint(t.w)
			if b.Cmp(big.NewInt(int64(t.w))) < 0 {
				s = uint(b.Uint64())
			}
			r = wrap(n.Rsh(toSigned(a, t.w), s), t.w)
		case OpULT:
			r = b2i(a.Cmp(b) < 0)
		case OpULE:
			r = b2i(a.Cmp(b) <= 0)
		case OpSLT:
			r = b2i(toSigned(a, x.w).Cmp(toSigned(b, x.w)) < 0)
		case OpSLE:
			r = b2i(toSigned(a, x.w).Cmp(toSigned(b, x.w)) <= 0)
		case OpConcat:
			n.Lsh(a, uint(t.a[1].w))
			r = n.Or(n, b)
		default:
			panic("eval op")
		}
	}
	e.memo[t] = r
	return r
}

// ---------- printing

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%s %d)", t.cbig().String(), t.w)
}

func sortOf(w int32) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

type printer struct {
	done map[*Term]bool
	sb   *strings.Builder
}

func (p *printer) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return smtConst(t)
	case OpVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emit writes the definitions t needs.
func (p *printer) emit(t *Term) {
	if t.op == OpConst || p.done[t] {
		return
	}
	p.done[t] = true
	if t.op == OpVar {
		fmt.Fprintf(p.sb, "(declare-const v%d %s)\n", t.id, sortOf(t.w))
		return
	}
	for _, a := range t.a {
		if a != nil {
			p.emit(a)
		}
	}
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, p.ref(t.a[0]))
	case OpZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, p.ref(t.a[0]))
	case OpSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, p.ref(t.a[0]))
	default:
		body = "(" + opName[t.op]
		for _, a := range t.a {
			if a != nil {
				body += " " + p.ref(a)
			}
		}
		body += ")"
	}
	fmt.Fprintf(p.sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
}
