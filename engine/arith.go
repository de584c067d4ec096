package main

import "math/bits"

// A small decision procedure for sums over the integers. Gas arithmetic is
// sums, differences, minima and saturation of values far below 2^63; bounds of
// the variables, what the path condition says and a case split on a few
// conditional terms decide nearly all its comparisons without the solver.
// Whatever it does not decide goes to the solver as before.

// form is the sum of its terms and k; a fact is a form known to be >= 0.
type form struct {
	ls []linTerm
	k  int64
}

type arith struct {
	// ver counts the changes of what is known about bounds.
	ver int32
	// facts follow from the path condition, tmp from the case being looked at.
	facts, tmp []form
}

func decidesLess(lo, hi int64) bool   { return hi < 0 || lo >= 0 }
func decidesLessEq(lo, hi int64) bool { return hi <= 0 || lo > 0 }
func decidesEq(lo, hi int64) bool     { return hi < 0 || lo > 0 || (lo == 0 && hi == 0) }

// linForm collects the summands of t modulo 2^w without making new terms; a
// zero-extension is replaced by its narrower argument, which is taken apart
// where that is exact over the integers. k wraps at 64 bits.
func (c *Ctx) linForm(ls []linTerm, t *Term, s int64, k *uint64, fuel *int) ([]linTerm, bool) {
	const lim = 1 << 24
	*fuel--
	if *fuel < 0 || s > lim || s < -lim {
		return nil, false
	}
	if t.isConst() {
		*k += uint64(s) * t.k
		return ls, true
	}
	var ok bool
	switch t.op {
	case OpAdd, OpSub:
		if ls, ok = c.linForm(ls, t.a[0], s, k, fuel); !ok {
			return nil, false
		}
		if t.op == OpSub {
			s = -s
		}
		return c.linForm(ls, t.a[1], s, k, fuel)
	case OpNeg:
		return c.linForm(ls, t.a[0], -s, k, fuel)
	case OpMul:
		if t.a[1].isConst() && t.a[1].k < lim && s < lim && s > -lim {
			return c.linForm(ls, t.a[0], s*int64(t.a[1].k), k, fuel)
		}
	case OpConcat:
		if z := t.a[1]; z.isZero() && z.w < 24 && s < lim && s > -lim {
			return c.linInner(ls, t.a[0], s<<uint(z.w), k, fuel)
		}
	case OpZExt:
		return c.linInner(ls, t.a[0], s, k, fuel)
	}
	return linAtom(ls, t, s)
}

func linAtom(ls []linTerm, t *Term, s int64) ([]linTerm, bool) {
	for i := range ls {
		if ls[i].t == t {
			ls[i].k += s
			return ls, true
		}
	}
	if len(ls) >= 40 {
		return nil, false
	}
	return append(ls, linTerm{t, s}), true
}

// linInner adds s times the value of a narrower term.
func (c *Ctx) linInner(ls []linTerm, t *Term, s int64, k *uint64, fuel *int) ([]linTerm, bool) {
	switch t.op {
	case OpAdd, OpSub, OpMul, OpConcat, OpZExt, OpNeg:
		if in, ok := c.formOf(t, fuel); ok {
			if in.k > 1<<38 || in.k < -(1<<38) {
				return nil, false
			}
			*k += uint64(s) * uint64(in.k)
			for _, l := range in.ls {
				if l.k > 1<<24 || l.k < -(1<<24) {
					return nil, false
				}
				if ls, ok = linAtom(ls, l.t, s*l.k); !ok {
					return nil, false
				}
			}
			return ls, true
		}
	}
	return linAtom(ls, t, s)
}

// linRange bounds a sum over the integers.
func linRange(f form) (lo, hi int64, ok bool) {
	const lim = 1 << 26
	if f.k > 1<<62 || f.k < -(1<<62) {
		return 0, 0, false
	}
	lo, hi = f.k, f.k
	for _, l := range f.ls {
		if l.k == 0 {
			continue
		}
		a, b := bounds(l.t)
		if b >= 1<<54 || l.k > lim || l.k < -lim {
			return 0, 0, false
		}
		m := l.k
		if m < 0 {
			m = -m
		}
		if h, v := bits.Mul64(b, uint64(m)); h != 0 || v > 1<<56 {
			return 0, 0, false
		}
		p, q := int64(a)*l.k, int64(b)*l.k
		if p > q {
			p, q = q, p
		}
		lo += p
		hi += q
		if lo < -(1<<62) || hi > 1<<62 || lo > 1<<62 || hi < -(1<<62) {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// plus is f + s*g.
func (f form) plus(g form, s int64) (form, bool) {
	if f.k > 1<<61 || f.k < -(1<<61) || g.k > 1<<61 || g.k < -(1<<61) || s > 1<<24 || s < -(1<<24) {
		return f, false
	}
	if s != 1 && s != -1 && (g.k > 1<<36 || g.k < -(1<<36)) {
		return f, false
	}
	r := form{append(make([]linTerm, 0, len(f.ls)+len(g.ls)), f.ls...), f.k + s*g.k}
	for _, l := range g.ls {
		if l.k > 1<<26 || l.k < -(1<<26) {
			return f, false
		}
		var ok bool
		if r.ls, ok = linAtom(r.ls, l.t, s*l.k); !ok {
			return f, false
		}
	}
	n := 0
	for _, l := range r.ls {
		if l.k != 0 {
			r.ls[n] = l
			n++
		}
	}
	r.ls = r.ls[:n]
	return r, true
}

// formOf writes the unsigned value of t as a sum over the integers, if it can.
func (c *Ctx) formOf(t *Term, fuel *int) (form, bool) {
	if t.w > 64 || t.w == 0 {
		return form{}, false
	}
	var u uint64
	var f form
	var ok bool
	var buf [40]linTerm
	if f.ls, ok = c.linForm(buf[:0], t, 1, &u, fuel); !ok {
		return f, false
	}
	m := maskw(t.w)
	f.k = sext64(t.w, u&m)
	lo, hi, ok := linRange(f)
	if !ok {
		return f, false
	}
	if t.w < 62 {
		// choose the representative of the constant that puts the range into the type
		size := int64(1) << uint(t.w)
		for lo < 0 && hi < 0 {
			f.k, lo, hi = f.k+size, lo+size, hi+size
		}
		for lo >= size {
			f.k, lo, hi = f.k-size, lo-size, hi-size
		}
		if hi >= size {
			return f, false
		}
	}
	if lo < 0 {
		if hi < 0 {
			return f, false
		}
		if lo, _, ok = c.rangeOf(f, decidesLess, fuel); !ok || lo < 0 {
			return f, false
		}
	}
	f.ls = append([]linTerm{}, f.ls...)
	return f, true
}

// rangeOf bounds a form, using single facts while that may still decide the
// question.
func (c *Ctx) rangeOf(f form, done func(lo, hi int64) bool, fuel *int) (lo, hi int64, ok bool) {
	*fuel--
	if *fuel < 0 {
		return 0, 0, false
	}
	if lo, hi, ok = linRange(f); !ok || done(lo, hi) {
		return
	}
	for i := 0; i < len(c.facts)+len(c.tmp); i++ {
		var g form
		if i < len(c.facts) {
			g = c.facts[i]
		} else {
			g = c.tmp[i-len(c.facts)]
		}
		if !shares(f, g) {
			continue
		}
		if d, ok := f.plus(g, -1); ok {
			if l, _, ok := linRange(d); ok && l > lo {
				lo = l
			}
		}
		if d, ok := f.plus(g, 1); ok {
			if _, h, ok := linRange(d); ok && h < hi {
				hi = h
			}
		}
		if done(lo, hi) {
			return lo, hi, true
		}
	}
	return
}

// fact is the i-th thing known.
func (c *Ctx) fact(i int) form {
	if i < len(c.facts) {
		return c.facts[i]
	}
	return c.tmp[i-len(c.facts)]
}

// nonNeg looks for a proof that a form is not negative: by bounds, by taking
// away facts, by cases of a conditional term.
func (c *Ctx) nonNeg(f form, facts, splits int, fuel *int) bool {
	*fuel--
	if *fuel < 0 {
		return false
	}
	lo, hi, ok := linRange(f)
	if !ok || hi < 0 {
		return false
	}
	if lo >= 0 {
		return true
	}
	if facts > 0 {
		for i := 0; i < len(c.facts)+len(c.tmp); i++ {
			g := c.fact(i)
			if !cancels(f, g) {
				continue
			}
			if d, ok := f.plus(g, -1); ok && c.nonNeg(d, facts-1, splits, fuel) {
				return true
			}
		}
	}
	if splits == 0 {
		return false
	}
	// split on the youngest conditional term
	var at *Term
	var coef int64
	for _, l := range f.ls {
		if l.k != 0 && l.t.op == OpIte && (at == nil || l.t.id > at.id) {
			at, coef = l.t, l.k
		}
	}
	if at == nil {
		return false
	}
	saved := len(c.tmp)
	defer func() { c.tmp = c.tmp[:saved] }()
	one := form{ls: []linTerm{{at, 1}}}
	al, au := bounds(at)
	for i := 0; i < 2; i++ {
		c.tmp = c.tmp[:saved]
		feasible := true
		for _, g := range c.condForms(at.a[0], i == 0, fuel, nil) {
			if _, h, ok := c.rangeOf(g, decidesLess, fuel); ok && h < 0 {
				feasible = false
			}
			c.tmp = append(c.tmp, g)
		}
		b := at.a[1+i]
		bf, ok := c.formOf(b, fuel)
		if !ok {
			bf = form{ls: []linTerm{{b, 1}}}
		}
		if bl, bu, ok := linRange(bf); ok && au < 1<<54 {
			if bu < int64(al) || bl > int64(au) {
				feasible = false
			}
			if bl < int64(al) {
				h, ok := bf.plus(form{k: int64(al)}, -1)
				if ok {
					c.tmp = append(c.tmp, h)
				}
			}
		}
		// what is known about the term is known about its value
		for j := 0; feasible && j < len(c.facts)+saved; j++ {
			g := c.fact(j)
			for _, l := range g.ls {
				if l.t != at {
					continue
				}
				if h, ok := g.plus(one, -l.k); ok {
					if h, ok = h.plus(bf, l.k); ok {
						if n, ok := (form{k: -1}).plus(h, -1); ok {
							// the opposite
							if c.nonNeg(n, 1, 0, fuel) {
								feasible = false
							}
						}
						c.tmp = append(c.tmp, h)
					}
				}
				break
			}
		}
		if !feasible {
			continue
		}
		g, ok := f.plus(one, -coef)
		if ok {
			g, ok = g.plus(bf, coef)
		}
		if !ok || !c.nonNeg(g, facts, splits-1, fuel) {
			return false
		}
	}
	return true
}

// cancels tells whether f-g loses a term that counts negatively in f.
func cancels(f, g form) bool {
	for _, a := range f.ls {
		for _, b := range g.ls {
			if a.t == b.t && a.k == b.k {
				return true
			}
		}
	}
	return false
}

func shares(f, g form) bool {
	for _, a := range f.ls {
		for _, b := range g.ls {
			if a.t == b.t {
				return true
			}
		}
	}
	return false
}

// condForms are facts that follow from a condition being true (or false).
func (c *Ctx) condForms(t *Term, truth bool, fuel *int, out []form) []form {
	switch t.op {
	case OpNot:
		return c.condForms(t.a[0], !truth, fuel, out)
	case OpAnd:
		if truth {
			return c.condForms(t.a[1], true, fuel, c.condForms(t.a[0], true, fuel, out))
		}
		return out
	case OpOr:
		if !truth {
			return c.condForms(t.a[1], false, fuel, c.condForms(t.a[0], false, fuel, out))
		}
		return out
	case OpULT, OpULE, OpEq:
	default:
		return out
	}
	x, y := t.a[0], t.a[1]
	if x.w == 0 || x.w > 64 {
		return out
	}
	if t.op == OpEq && !truth {
		// a value that is not at the end of its range
		if x.isConst() {
			x, y = y, x
		}
		if !y.isConst() || x.w < 16 {
			return out
		}
		l, u := bounds(x)
		if y.k != l && y.k != u {
			return out
		}
		f, ok := c.formOf(x, fuel)
		if !ok || y.k > 1<<54 {
			return out
		}
		if y.k == l {
			f.k -= int64(l) + 1
			return append(out, f)
		}
		if f, ok = (form{k: int64(u) - 1}).plus(f, -1); ok {
			out = append(out, f)
		}
		return out
	}
	fx, ok := c.formOf(x, fuel)
	if !ok {
		return out
	}
	fy, ok := c.formOf(y, fuel)
	if !ok {
		return out
	}
	// d = y - x
	d, ok := fy.plus(fx, -1)
	if !ok {
		return out
	}
	n, ok := form{}.plus(d, -1)
	if !ok {
		return out
	}
	switch {
	case t.op == OpEq:
		return append(out, d, n)
	case t.op == OpULT && truth:
		d.k--
	case t.op == OpULE && truth:
	case t.op == OpULT:
		d = n
	default:
		d = n
		d.k--
	}
	return append(out, d)
}

func linBounds(t *Term) (uint64, uint64) {
	c := t.c
	tmp := c.tmp
	c.tmp = nil
	defer func() { c.tmp = tmp }()
	fuel := 100
	if f, ok := c.formOf(t, &fuel); ok {
		if lo, hi, ok := c.rangeOf(f, func(lo, hi int64) bool { return lo == hi }, &fuel); ok && lo >= 0 && lo <= hi {
			return uint64(lo), uint64(hi)
		}
	}
	return 0, maskw(t.w)
}

// branchBounds bounds one alternative of a conditional term.
func branchBounds(t *Term, i int) (uint64, uint64) {
	b := t.a[i]
	l, u := bounds(b)
	c := t.c
	if c == nil || b.isConst() || b.w < 16 || !sum(b) || u < 1<<54 && u < maskw(b.w) {
		return l, u
	}
	tmp := c.tmp
	c.tmp = nil
	defer func() { c.tmp = tmp }()
	fuel := 100
	c.tmp = c.condForms(t.a[0], i == 1, &fuel, nil)
	if len(c.tmp) == 0 {
		return l, u
	}
	if f, ok := c.formOf(b, &fuel); ok {
		if lo, hi, ok := c.rangeOf(f, func(lo, hi int64) bool { return lo == hi }, &fuel); ok && lo >= 0 && lo <= hi {
			return uint64(lo), uint64(hi)
		}
	}
	return l, u
}

func sum(t *Term) bool {
	for t.op == OpZExt {
		t = t.a[0]
	}
	return t.op == OpAdd || t.op == OpSub || t.op == OpMul || t.op == OpIte || t.op == OpNeg
}

// diff bounds x-y over the integers.
func (c *Ctx) diff(x, y *Term, done func(lo, hi int64) bool) (lo, hi int64, ok bool) {
	if x.w > 64 || x.w < 16 || !(sum(x) || sum(y) || len(c.facts) > 0) {
		return 0, 0, false
	}
	fuel := 600
	fx, ok := c.formOf(x, &fuel)
	if !ok {
		return 0, 0, false
	}
	fy, ok := c.formOf(y, &fuel)
	if !ok {
		return 0, 0, false
	}
	d, ok := fx.plus(fy, -1)
	if !ok {
		return 0, 0, false
	}
	if lo, hi, ok = c.rangeOf(d, done, &fuel); !ok || done(lo, hi) {
		return
	}
	n, ok := form{}.plus(d, -1)
	if !ok {
		return lo, hi, true
	}
	prove := func(f form, k int64) bool {
		f.k += k
		fuel := 300
		return c.nonNeg(f, 3, 5, &fuel)
	}
	if lo < 0 && prove(d, 0) {
		lo = 0
	}
	if !done(lo, hi) && lo == 0 && prove(d, -1) {
		lo = 1
	}
	if !done(lo, hi) && hi > 0 && prove(n, 0) {
		hi = 0
	}
	if !done(lo, hi) && hi == 0 && prove(n, -1) {
		hi = -1
	}
	return lo, hi, true
}

func (c *Ctx) eqByRange(x, y *Term) *Term {
	if x.w > 64 || x.w < 16 || !(sum(x) || sum(y)) {
		return nil
	}
	lo, hi, ok := c.diff(x, y, decidesEq)
	switch {
	case !ok:
		return nil
	case lo > 0 || hi < 0:
		return tFalse
	case lo == 0 && hi == 0:
		return tTrue
	}
	return nil
}

// learn takes over what a new conjunct of the path condition says.
func (c *Ctx) learn(t *Term) {
	if t.isConst() {
		return
	}
	fuel := 200
	for _, f := range c.condForms(t, true, &fuel, nil) {
		n := 0
		for _, l := range f.ls {
			if l.k != 0 {
				n++
			}
		}
		if n > 1 && len(c.facts) < 48 {
			c.facts = append(c.facts, f)
			c.ver++
		}
		c.narrow(f)
	}
}

// narrow improves the bounds of the terms of a fact.
func (c *Ctx) narrow(f form) {
	for _, l := range f.ls {
		if l.k == 0 || l.t.w < 16 {
			continue
		}
		rest, ok := f.plus(form{ls: []linTerm{{l.t, 1}}}, -l.k)
		if !ok {
			continue
		}
		_, h, ok := linRange(rest)
		if !ok {
			continue
		}
		a, b := bounds(l.t)
		if l.k > 0 && h < 0 {
			// l.k * x >= -h
			if v := uint64((-h + l.k - 1) / l.k); v > a && v <= b {
				c.setBounds(l.t, v, b)
			}
		} else if l.k < 0 && h >= 0 {
			if v := uint64(h / -l.k); v < b && v >= a {
				c.setBounds(l.t, a, v)
			}
		}
	}
}

func (c *Ctx) setBounds(t *Term, lo, hi uint64) {
	if lo > hi || t.isConst() {
		return
	}
	if t.fact {
		if t.flo > lo {
			lo = t.flo
		}
		if t.fup < hi {
			hi = t.fup
		}
	}
	t.fact, t.flo, t.fup = true, lo, hi
	c.ver++
	if t.op == OpZExt && hi <= maskw(t.a[0].w) {
		c.setBounds(t.a[0], lo, hi)
	}
}
