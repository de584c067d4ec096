package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are run one at a time: control moves to another goroutine only
// where the running one has to wait for data of a pipe, or ends. Goroutines
// that communicate through pipes alone have no other schedule worth telling
// apart.

type coro struct {
	resume  chan struct{}
	waiting func() bool // nil: ready to run
	timed   bool        // the wait has a deadline
	expired bool
	stack   []*frame
	depth   int
	done    bool
	gone    chan struct{}
}

type coroKilled struct{}

func (in *Interp) curCoro() *coro {
	if in.cur == nil {
		in.cur = &coro{resume: make(chan struct{})}
		in.coros = append(in.coros, in.cur)
	}
	return in.cur
}

func (in *Interp) spawn(fn value, args []value) {
	in.noSpec()
	in.curCoro()
	c := &coro{resume: make(chan struct{}), gone: make(chan struct{})}
	in.coros = append(in.coros, c)
	if len(in.coros) > 16 {
		panic(pathEnd{"bound", "more than 16 goroutines"})
	}
	go func() {
		defer close(c.gone)
		<-c.resume
		if !in.coKill {
			in.runCoro(fn, args)
		}
		c.done = true
		if in.coKill {
			return
		}
		next := in.coros[0]
		if in.coEnd == nil {
			if next = in.pickCoro(c); next == nil {
				next = in.coros[0]
				e := pathEnd{"bound", "every goroutine waits"}
				in.coEnd = &e
			}
		}
		in.cur = next
		in.stack, in.depth = next.stack, next.depth
		next.resume <- struct{}{}
	}()
}

// runCoro runs the body of a goroutine; what ends the path is left in coEnd.
func (in *Interp) runCoro(fn value, args []value) {
	in.stack, in.depth = nil, 0
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case coroKilled:
			case pathEnd:
				in.coEnd = &r
			case targetPanic:
				e := in.uncaught(r)
				in.coEnd = &e
			default:
				e := pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", r, in.where())}
				in.coEnd = &e
			}
		}
	}()
	in.call(fn, args)
}

// pickCoro is a goroutine other than c that can run; failing that, one whose
// wait has a deadline, which then expires.
func (in *Interp) pickCoro(c *coro) *coro {
	n := len(in.coros)
	at := 0
	for i, o := range in.coros {
		if o == c {
			at = i
		}
	}
	for i := 1; i <= n; i++ {
		o := in.coros[(at+i)%n]
		if !o.done && (o.waiting == nil || o.waiting()) {
			return o
		}
	}
	for i := 1; i <= n; i++ {
		o := in.coros[(at+i)%n]
		if !o.done && o.timed {
			o.expired = true
			return o
		}
	}
	return nil
}

// await runs other goroutines until ready; false when the deadline expired.
func (in *Interp) await(ready func() bool, timed bool) bool {
	in.noSpec()
	if ready() {
		return true
	}
	c := in.curCoro()
	c.waiting, c.timed, c.expired = ready, timed, false
	next := in.pickCoro(c)
	if next == nil {
		panic(pathEnd{"bound", "every goroutine waits"})
	}
	if next != c {
		c.stack, c.depth = in.stack, in.depth
		in.cur = next
		in.stack, in.depth = next.stack, next.depth
		next.resume <- struct{}{}
		<-c.resume
		if in.coKill {
			panic(coroKilled{})
		}
		if in.coEnd != nil {
			panic(*in.coEnd)
		}
	}
	c.waiting, c.timed = nil, false
	return !c.expired
}

// killCoros ends what still waits when the path ends.
func (in *Interp) killCoros() {
	in.coKill = true
	for i, c := range in.coros {
		if i > 0 && !c.done {
			in.stack, in.depth = c.stack, c.depth
			c.resume <- struct{}{}
			<-c.gone
		}
	}
}

// ---------- pipes

type pipeModel struct {
	chunks   [][]*Term
	wclosed  bool
	rclosed  bool
	deadline bool
}

type pipeEnd struct {
	p     *pipeModel
	write bool
}

func (in *Interp) pipeOf(v value) *pipeEnd {
	p, ok := v.(*value)
	if !ok || p == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	e := in.pipes[p]
	if e == nil {
		in.unsupported("file that is not a pipe")
	}
	return e
}

func registerPipes() {
	reg("os.Pipe", impure(func(in *Interp, a []value) value {
		m := &pipeModel{}
		if in.pipes == nil {
			in.pipes = map[*value]*pipeEnd{}
		}
		r, w := new(value), new(value)
		*r, *w = structure{(*value)(nil)}, structure{(*value)(nil)}
		in.pipes[r] = &pipeEnd{p: m}
		in.pipes[w] = &pipeEnd{p: m, write: true}
		return tuple{r, w, iface{}}
	}))
	reg("(*os.File).Read", impure(func(in *Interp, a []value) value {
		e := in.pipeOf(a[0])
		b := a[1].(slice)
		p := e.p
		if e.write {
			return tuple{K(64, 0), in.mkErr("bad file descriptor")}
		}
		if p.rclosed {
			return tuple{K(64, 0), in.mkErr("file already closed")}
		}
		if len(b) == 0 {
			return tuple{K(64, 0), iface{}}
		}
		if !in.await(func() bool { return len(p.chunks) > 0 || p.wclosed || p.rclosed }, p.deadline) {
			return tuple{K(64, 0), in.mkErr("i/o timeout")}
		}
		if p.rclosed {
			return tuple{K(64, 0), in.mkErr("file already closed")}
		}
		if len(p.chunks) == 0 {
			return tuple{K(64, 0), copyVal(*in.global(in.prog.ioEOF()))}
		}
		c := p.chunks[0]
		n := copyTerms(b, c)
		if n == len(c) {
			p.chunks = p.chunks[1:]
		} else {
			p.chunks[0] = c[n:]
		}
		return tuple{K(64, uint64(n)), iface{}}
	}))
	reg("(*os.File).Write", impure(func(in *Interp, a []value) value {
		e := in.pipeOf(a[0])
		if !e.write {
			return tuple{K(64, 0), in.mkErr("bad file descriptor")}
		}
		if e.p.wclosed {
			return tuple{K(64, 0), in.mkErr("file already closed")}
		}
		if e.p.rclosed {
			return tuple{K(64, 0), in.mkErr("broken pipe")}
		}
		b := in.bytesOf(a[1])
		if len(b) > 0 {
			e.p.chunks = append(e.p.chunks, append([]*Term(nil), b...))
		}
		return tuple{K(64, uint64(len(b))), iface{}}
	}))
	reg("(*os.File).Close", impure(func(in *Interp, a []value) value {
		e := in.pipeOf(a[0])
		c := &e.p.rclosed
		if e.write {
			c = &e.p.wclosed
		}
		if *c {
			return in.mkErr("file already closed")
		}
		*c = true
		return iface{}
	}))
	deadline := impure(func(in *Interp, a []value) value {
		e := in.pipeOf(a[0])
		zeroTime := true
		for _, f := range a[1].(structure) {
			if t, ok := f.(*Term); ok {
				if !t.isConst() || t.k != 0 {
					zeroTime = false
				}
			}
		}
		if !e.write {
			e.p.deadline = !zeroTime
		}
		return iface{}
	})
	reg("(*os.File).SetDeadline", deadline)
	reg("(*os.File).SetReadDeadline", deadline)
}

func copyTerms(b slice, c []*Term) int {
	n := len(b)
	if len(c) < n {
		n = len(c)
	}
	for i := 0; i < n; i++ {
		b[i] = c[i]
	}
	return n
}

func (p *Program) ioEOF() *ssa.Global {
	for _, pkg := range p.prog.AllPackages() {
		if pkg.Pkg.Path() == "io" {
			return pkg.Var("EOF")
		}
	}
	return nil
}

// ---------- json: one type read as another

// jsonFlat is what a document of this struct holds, by field name.
type jsonField struct {
	t types.Type
	v value
}

func jsonFlat(v structure, st *types.Struct, out map[string]jsonField) {
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				jsonFlat(v[i].(structure), es, out)
				continue
			}
		}
		if f.Exported() {
			out[f.Name()] = jsonField{f.Type(), v[i]}
		}
	}
}

// jsonFill stores the fields of a document into a struct of another type.
func (in *Interp) jsonFill(cur structure, st *types.Struct, doc map[string]jsonField) structure {
	r := append(structure(nil), cur...)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if es, ok := f.Type().Underlying().(*types.Struct); ok {
				r[i] = in.jsonFill(r[i].(structure), es, doc)
				continue
			}
		}
		if d, ok := doc[f.Name()]; ok && f.Exported() {
			if !types.Identical(d.t, f.Type()) {
				in.unsupported("json field " + f.Name() + " read as another type")
			}
			r[i] = in.deepCopy(d.v, d.t, 0)
		}
	}
	return r
}

// jsonText is what a string turns into in a JSON document and back: bytes that
// are not UTF-8 are replaced.
func (in *Interp) jsonText(s Str) Str {
	if s.t == nil {
		ascii := true
		for i := 0; i < len(s.c); i++ {
			ascii = ascii && s.c[i] < 0x80
		}
		if ascii {
			return s
		}
		var out []rune
		for _, r := range s.c {
			out = append(out, r)
		}
		return Str{c: string(out)}
	}
	high := tFalse
	for _, b := range s.bytes() {
		high = in.ctx.Or(high, in.ctx.Not(in.ctx.ULT(b, K(8, 0x80))))
	}
	if !in.decide(high) {
		return s
	}
	fn := in.prog.jsonTextFn()
	if fn == nil {
		in.unsupported("json of text that is not ASCII")
	}
	return in.callFn(fn, []value{s}, nil).(Str)
}

func (p *Program) jsonTextFn() *ssa.Function {
	for _, pkg := range p.prog.AllPackages() {
		if pkg.Pkg.Name() == "verifnd" {
			if f := pkg.Func("JSONText"); f != nil {
				return f
			}
		}
	}
	return nil
}
