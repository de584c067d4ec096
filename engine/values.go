package main

// Values of the symbolic interpreter. The heap layout follows
// golang.org/x/tools/go/ssa/interp: pointers are *value, aggregates are slices.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type structure []value
type array []value
type slice []value // nil slice: slice(nil)
type tuple []value

type iface struct {
	t types.Type // nil for a nil interface
	v value
}

// Str is an immutable string: concrete when t == nil.
type Str struct {
	c string
	t []*Term
}

func (s Str) len() int {
	if s.t != nil {
		return len(s.t)
	}
	return len(s.c)
}

func (s Str) at(i int) *Term {
	if s.t != nil {
		return s.t[i]
	}
	return K(8, uint64(s.c[i]))
}

func (s Str) sub(i, j int) Str {
	if s.t != nil {
		return mkStr(s.t[i:j])
	}
	return Str{c: s.c[i:j]}
}

func (s Str) bytes() []*Term {
	if s.t != nil {
		return s.t
	}
	r := make([]*Term, len(s.c))
	for i := range r {
		r[i] = K(8, uint64(s.c[i]))
	}
	return r
}

// mkStr normalises: concrete when every byte is constant.
func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			cp := make([]*Term, len(b))
			copy(cp, b)
			return Str{t: cp}
		}
	}
	cs := make([]byte, len(b))
	for i, t := range b {
		cs[i] = byte(t.k)
	}
	return Str{c: string(cs)}
}

func (s Str) String() string {
	if s.t == nil {
		return s.c
	}
	var sb strings.Builder
	for _, t := range s.t {
		if t.isConst() {
			sb.WriteByte(byte(t.k))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

// bigV is the content of a math/big.Int: a two's complement vector of any width.
type bigV struct{ t *Term }

type closure struct {
	fn  *ssa.Function
	env []value
}

// boundBuiltin is an intrinsic usable as a first-class function value.
type nativeFn struct {
	name string
	f    func(in *Interp, args []value) value
}

type mapEntry struct {
	k, v    value
	deleted bool
}

type Map struct {
	entries []*mapEntry
	idx     map[interface{}]int // concrete keys
	symKeys int                 // number of live entries with a symbolic key
	n       int
	order   []int // iteration order of the harness, if permuted
}

func newMap() *Map { return &Map{idx: map[interface{}]int{}} }

type mapIter struct {
	m     *Map
	order []*mapEntry
	pos   int
}

type strIter struct {
	s   Str
	pos int
}

// opaque is a value of a modelled foreign type.
type opaque struct {
	kind string
	data interface{}
}

type chanV struct {
	buf    []value
	cap    int
	closed bool
}

func (in *Interp) intTerm(v value) *Term {
	t, ok := v.(*Term)
	if !ok {
		in.unsupported(fmt.Sprintf("integer expected, got %T", v))
	}
	return t
}

// widthOf returns the bit width and signedness of a basic integer type.
func widthOf(t types.Type) (w int32, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func zeroBig() bigV { return bigV{K(1, 0)} }

// zero returns the zero value of t.
func zero(t types.Type) value {
	if isNamed(t, "math/big", "Int") {
		return zeroBig()
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return unsafePtr{}
		}
		if t.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		if t.Info()&types.IsString != 0 {
			return Str{}
		}
		if t.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if w, _, ok := widthOf(t); ok {
			return K(w, 0)
		}
		if t.Kind() == types.UntypedNil {
			return nil
		}
		if t.Info()&types.IsComplex != 0 {
			return complex(0, 0)
		}
		panic("zero of " + t.String())
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Slice:
		return slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		r := make(tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	}
	panic("zero of " + t.String())
}

type unsafePtr struct{ p value }

// copyVal copies aggregates (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// storeVal writes v into *addr, keeping interior pointers valid.
func storeVal(addr *value, v value) {
	switch v := v.(type) {
	case structure:
		if dst, ok := (*addr).(structure); ok && len(dst) == len(v) {
			if len(v) > 0 && &dst[0] == &v[0] {
				return
			}
			tmp := copyVal(v).(structure)
			for i := range tmp {
				storeVal(&dst[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
		return
	case array:
		if dst, ok := (*addr).(array); ok && len(dst) == len(v) {
			tmp := copyVal(v).(array)
			for i := range tmp {
				storeVal(&dst[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
		return
	}
	*addr = v
}

// concreteKey gives a Go-comparable key when v is fully concrete.
func concreteKey(v value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() && v.w <= 64 {
			return struct {
				w int32
				k uint64
			}{v.w, v.k}, true
		}
		return nil, false
	case Str:
		if v.t == nil {
			return v.c, true
		}
		return nil, false
	case *value:
		return v, true
	case iface:
		k, ok := concreteKey(v.v)
		if !ok {
			return nil, false
		}
		ts := ""
		if v.t != nil {
			ts = v.t.String()
		}
		return struct {
			t string
			k interface{}
		}{ts, k}, true
	case array:
		return aggKey([]value(v))
	case structure:
		return aggKey([]value(v))
	case nil:
		return nil, true
	case float64:
		return v, true
	}
	return nil, false
}

func aggKey(vs []value) (interface{}, bool) {
	s := ""
	for _, e := range vs {
		k, ok := concreteKey(e)
		if !ok {
			return nil, false
		}
		s += fmt.Sprintf("%v|", k)
	}
	return "agg:" + s, true
}

// eqTerm builds the equality of two values as a Bool term.
func (in *Interp) eqTerm(x, y value) *Term {
	c := in.ctx
	switch x := x.(type) {
	case *Term:
		return c.Eq(x, y.(*Term))
	case Str:
		y := y.(Str)
		if x.len() != y.len() {
			return tFalse
		}
		if x.t == nil && y.t == nil {
			return KBool(x.c == y.c)
		}
		r := tTrue
		// check constant bytes first
		for i := 0; i < x.len(); i++ {
			a, b := x.at(i), y.at(i)
			if a.isConst() && b.isConst() && a.k != b.k {
				return tFalse
			}
		}
		for i := 0; i < x.len(); i++ {
			r = c.And(r, c.Eq(x.at(i), y.at(i)))
		}
		return r
	case *value:
		if yp, ok := y.(*value); ok {
			return KBool(x == yp)
		}
		return KBool(false)
	case iface:
		yi, ok := y.(iface)
		if !ok {
			in.unsupported("iface compare")
		}
		if x.t == nil || yi.t == nil {
			return KBool(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			in.runtimePanic("comparing uncomparable type " + x.t.String())
		}
		return in.eqTerm(x.v, yi.v)
	case structure:
		r := tTrue
		ys := y.(structure)
		for i := range x {
			r = c.And(r, in.eqTerm(x[i], ys[i]))
		}
		return r
	case array:
		r := tTrue
		ys := y.(array)
		for i := range x {
			r = c.And(r, in.eqTerm(x[i], ys[i]))
		}
		return r
	case bigV:
		// comparing big.Int structs by value
		a, b := in.bigAlign(x, y.(bigV))
		return c.Eq(a, b)
	case *Map:
		return KBool(x == y.(*Map))
	case *chanV:
		return KBool(x == y.(*chanV))
	case slice:
		// only comparison with nil is legal
		ys := y.(slice)
		if ys == nil {
			return KBool(x == nil)
		}
		return KBool(false)
	case float64:
		return KBool(x == y.(float64))
	case *closure:
		if yc, ok := y.(*closure); ok {
			return KBool(x == yc)
		}
		return KBool(false)
	case *ssa.Function, *ssa.Builtin, *nativeFn:
		// comparison with nil func
		return KBool(x == y)
	case unsafePtr:
		yp, ok := y.(unsafePtr)
		if !ok {
			return tFalse
		}
		return KBool(x.p == yp.p)
	case opaque:
		yo, ok := y.(opaque)
		return KBool(ok && x == yo)
	case nil:
		return KBool(y == nil)
	}
	in.unsupported(fmt.Sprintf("compare %T", x))
	return nil
}

// ---------- maps

func (in *Interp) mapFind(m *Map, k value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := concreteKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.entries[i]
		}
		if m.symKeys == 0 {
			return nil
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if conc {
			if _, c := concreteKey(e.k); c {
				continue // different concrete key
			}
		}
		if in.decide(in.eqTerm(e.k, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *Map, k, v value) {
	if m == nil {
		in.goPanicStr("assignment to entry in nil map")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: copyVal(k), v: v}
	m.entries = append(m.entries, e)
	m.n++
	if ck, conc := concreteKey(k); conc {
		m.idx[ck] = len(m.entries) - 1
	} else {
		m.symKeys++
	}
}

func (in *Interp) mapDelete(m *Map, k value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if ck, conc := concreteKey(e.k); conc {
		delete(m.idx, ck)
	} else {
		m.symKeys--
	}
}

func (in *Interp) mapIter(m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	var live []*mapEntry
	for _, e := range m.entries {
		if !e.deleted {
			live = append(live, e)
		}
	}
	if in.permuteMaps && len(live) > 1 && len(live) <= 4 {
		rest := append([]*mapEntry{}, live...)
		for len(rest) > 1 {
			i := in.choose(len(rest), "maporder")
			it.order = append(it.order, rest[i])
			rest = append(append([]*mapEntry{}, rest[:i]...), rest[i+1:]...)
		}
		it.order = append(it.order, rest[0])
		return it
	}
	it.order = live
	return it
}

func (it *mapIter) next(in *Interp) value {
	for it.pos < len(it.order) {
		e := it.order[it.pos]
		it.pos++
		if e.deleted {
			continue
		}
		return tuple{tTrue, copyVal(e.k), copyVal(e.v)}
	}
	return tuple{tFalse, nil, nil}
}

// ---------- big integers

func (in *Interp) normBig(t *Term) bigV {
	if t.isConst() {
		v := t.csigned()
		w := int32(1)
		if v.Sign() >= 0 {
			w = int32(v.BitLen()) + 1
		} else {
			w = int32(new(big.Int).Not(v).BitLen()) + 1
		}
		return bigV{KB(w, v)}
	}
	if t.op == OpZExt && t.w > t.a[0].w+1 {
		t = in.ctx.ZExt(t.a[0], t.a[0].w+1)
	}
	if t.op == OpSExt {
		t = t.a[0]
	}
	if t.w > 20000 {
		in.unsupported("big integer too wide")
	}
	return bigV{t}
}

func bigConst(v *big.Int) bigV {
	w := int32(1)
	if v.Sign() >= 0 {
		w = int32(v.BitLen()) + 1
	} else {
		w = int32(new(big.Int).Not(v).BitLen()) + 1
	}
	return bigV{KB(w, v)}
}

func (in *Interp) bigAlign(x, y bigV) (*Term, *Term) {
	w := x.t.w
	if y.t.w > w {
		w = y.t.w
	}
	return in.ctx.SExt(x.t, w), in.ctx.SExt(y.t, w)
}

func (in *Interp) bigAdd(x, y bigV) bigV {
	w := x.t.w
	if y.t.w > w {
		w = y.t.w
	}
	w++
	return in.normBig(in.ctx.Add(in.ctx.SExt(x.t, w), in.ctx.SExt(y.t, w)))
}

func (in *Interp) bigSub(x, y bigV) bigV {
	w := x.t.w
	if y.t.w > w {
		w = y.t.w
	}
	w++
	return in.normBig(in.ctx.Sub(in.ctx.SExt(x.t, w), in.ctx.SExt(y.t, w)))
}

func (in *Interp) bigMul(x, y bigV) bigV {
	w := x.t.w + y.t.w
	return in.normBig(in.ctx.Mul(in.ctx.SExt(x.t, w), in.ctx.SExt(y.t, w)))
}

func (in *Interp) bigNeg(x bigV) bigV {
	return in.normBig(in.ctx.Neg(in.ctx.SExt(x.t, x.t.w+1)))
}

func (in *Interp) bigIsNeg(x bigV) *Term {
	return in.ctx.SLT(x.t, KB(x.t.w, bigZero))
}

func (in *Interp) bigAbs(x bigV) bigV {
	if signKnown(x.t) == 1 {
		return x
	}
	w := x.t.w + 1
	e := in.ctx.SExt(x.t, w)
	return in.normBig(in.ctx.Ite(in.bigIsNeg(x), in.ctx.Neg(e), e))
}

func (in *Interp) bigCmp(x, y bigV) *Term {
	a, b := in.bigAlign(x, y)
	c := in.ctx
	return c.Ite(c.SLT(a, b), KB(64, big.NewInt(-1)), c.Ite(c.Eq(a, b), K(64, 0), K(64, 1)))
}

func (in *Interp) bigSign(x bigV) *Term { return in.bigCmp(x, zeroBig()) }

// bigFromBytes is big-endian unsigned.
func (in *Interp) bigFromBytes(b []*Term) bigV {
	if len(b) == 0 {
		return zeroBig()
	}
	t := b[0]
	for _, e := range b[1:] {
		t = in.ctx.Concat(t, e)
	}
	return in.normBig(in.ctx.ZExt(t, t.w+1))
}

// bigBytes returns the minimal big-endian absolute value; it forks on the length.
func (in *Interp) bigBytes(x bigV) []*Term {
	a := in.bigAbs(x)
	c := in.ctx
	t := a.t
	// t is non-negative; drop sign bits
	max := int((t.w + 7) / 8)
	w := int32(max) * 8
	var u *Term
	if t.w <= w {
		u = c.ZExt(t, w)
	}
	n := 0
	for ; n < max; n++ {
		// fits in n bytes?
		var fits *Term
		if n == 0 {
			fits = c.Eq(u, KB(w, bigZero))
		} else {
			fits = c.Eq(c.Extract(u, w-1, int32(n)*8), KB(w-int32(n)*8, bigZero))
		}
		if in.decide(fits) {
			break
		}
	}
	out := make([]*Term, n)
	for i := 0; i < n; i++ {
		sh := int32(n-1-i) * 8
		out[i] = c.Extract(u, sh+7, sh)
	}
	return out
}

// bigLow64 is the value modulo 2^64.
func (in *Interp) bigLow64(x bigV) *Term {
	if x.t.w >= 64 {
		return in.ctx.Extract(x.t, 63, 0)
	}
	return in.ctx.SExt(x.t, 64)
}

func termsOfSlice(in *Interp, s slice) []*Term {
	r := make([]*Term, len(s))
	for i := range s {
		r[i] = in.intTerm(s[i])
	}
	return r
}

func sliceOfTerms(ts []*Term) slice {
	r := make(slice, len(ts))
	for i := range ts {
		r[i] = ts[i]
	}
	return r
}
