package main

// The SSA interpreter.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v  value
	at string
}

type specAbort struct{}

type Interp struct {
	pcDbg  []*Term
	ex     *Explorer
	prog   *Program
	ctx    *Ctx
	solver *Solver
	prefix []int32
	trace  []int32
	warm   []*big.Int
	known  map[*Term]bool

	model     Model
	haveModel bool
	ev        *evaluator

	nd           []*NDValue
	obs          []Observation
	reached      map[string]bool
	sites        map[string]int64
	funcs        map[string]bool
	violations   []*Case
	nAsserts     int64
	forced       int64
	unknown      int64
	pcN          int
	steps        int64
	maxSteps     int64
	maxDecisions int
	depth        int
	permuteMaps  bool
	spec         int
	specAlloc    map[*value]int64 // cell -> the speculative arm that made it
	arm, armN    int64

	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool
	stack    []*frame
	hashMemo []hashRec
	blobs    []value // modelled json documents
	files    map[*value]*fileModel
	allocCut int64
	extra    map[string]value

	coros    []*coro
	cur      *coro
	coEnd    *pathEnd
	coKill   bool
	pipes    map[*value]*pipeEnd
	jsonRead bool
}

type frame struct {
	fn       *ssa.Function
	cf       *compiledFn
	regs     []value
	env      []value
	defers   []*deferred
	panicking bool
	panicv   targetPanic
	recovered bool
	result   value
	caller   *frame
	instr    ssa.Instruction
	isDefer  *frame // the frame whose deferred call this is
	// visited is set while the arms of a merge run: the blocks they entered
	visited map[int]bool
}

type deferred struct {
	fn   value
	args []value
}

// ---------- compilation to operand slots

type operand struct {
	kind int8 // 0 slot, 1 const, 2 global, 3 freevar
	idx  int
	v    value
	g    *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []operand
}

type compiledFn struct {
	fn     *ssa.Function
	nslots int
	blocks [][]cinstr
	slot   map[ssa.Value]int
	ipdom  []int // immediate post-dominator block index or -1
}

var compiled sync.Map // *ssa.Function -> *compiledFn
var compileMu sync.Mutex

func (p *Program) compile(fn *ssa.Function) *compiledFn {
	if c, ok := compiled.Load(fn); ok {
		return c.(*compiledFn)
	}
	compileMu.Lock()
	defer compileMu.Unlock()
	if c, ok := compiled.Load(fn); ok {
		return c.(*compiledFn)
	}
	cf := &compiledFn{fn: fn, slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		cf.slot[v] = cf.nslots
		cf.nslots++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	op := func(v ssa.Value) operand {
		switch v := v.(type) {
		case nil:
			return operand{kind: 1, v: nil}
		case *ssa.Const:
			return operand{kind: 1, v: constVal(v)}
		case *ssa.Global:
			return operand{kind: 2, g: v}
		case *ssa.Function:
			return operand{kind: 1, v: v}
		case *ssa.Builtin:
			return operand{kind: 1, v: v}
		case *ssa.FreeVar:
			return operand{kind: 3, idx: free[v]}
		}
		s, ok := cf.slot[v]
		if !ok {
			panic("no slot for " + v.Name() + " in " + fn.String())
		}
		return operand{idx: s}
	}
	cf.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		for _, i := range b.Instrs {
			ci := cinstr{ins: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = cf.slot[v]
			}
			var rands []*ssa.Value
			rands = i.Operands(rands)
			for _, r := range rands {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, operand{kind: 1, v: nil})
					continue
				}
				ci.ops = append(ci.ops, op(*r))
			}
			cf.blocks[bi] = append(cf.blocks[bi], ci)
		}
	}
	cf.ipdom = postDoms(fn)
	compiled.Store(fn, cf)
	return cf
}

// postDoms computes immediate post-dominators (virtual exit = -1).
func postDoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	// sets as bitmaps; functions are small
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n)
	for i := range pd {
		pd[i] = append([]uint64{}, full...)
		if len(fn.Blocks[i].Succs) == 0 {
			pd[i] = make([]uint64, words)
			pd[i][i/64] |= 1 << uint(i%64)
		}
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			nw := append([]uint64{}, full...)
			for _, s := range b.Succs {
				for w := range nw {
					nw[w] &= pd[s.Index][w]
				}
			}
			nw[i/64] |= 1 << uint(i%64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					changed = true
				}
			}
			pd[i] = nw
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]&(1<<uint(j%64)) != 0 }
	res := make([]int, n)
	for i := 0; i < n; i++ {
		res[i] = -1
		for j := 0; j < n; j++ {
			if j == i || !has(i, j) {
				continue
			}
			// j is immediate if every other strict post-dominator of i post-dominates j
			ok := true
			for k := 0; k < n; k++ {
				if k != i && k != j && has(i, k) && !has(j, k) {
					ok = false
					break
				}
			}
			if ok {
				res[i] = j
				break
			}
		}
	}
	return res
}

func constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return KBool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return Str{c: constant.StringVal(c.Value)}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return f
		case b.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
		if w, _, ok := widthOf(t); ok {
			iv := constant.ToInt(c.Value)
			n, _ := new(big.Int).SetString(iv.ExactString(), 10)
			return KB(w, n)
		}
	}
	if _, ok := t.Underlying().(*types.TypeParam); ok {
		return nil
	}
	panic("constVal " + c.String())
}

func newInterp(ex *Explorer, s *Solver, prefix []int32) *Interp {
	in := &Interp{
		ex: ex, prog: ex.prog, ctx: newCtx(), solver: s, prefix: prefix,
		known: map[*Term]bool{}, reached: map[string]bool{}, sites: map[string]int64{},
		funcs: map[string]bool{}, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{},
		maxSteps: ex.maxSteps, maxDecisions: 4000, files: map[*value]*fileModel{}, extra: map[string]value{},
	}
	in.setModel(Model{})
	return in
}

func (in *Interp) where() string {
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i]
		if f.instr != nil && f.instr.Pos() != token.NoPos {
			p := in.prog.fset.Position(f.instr.Pos())
			return fmt.Sprintf("%s:%d (%s)", in.prog.rel(p.Filename), p.Line, shortFn(f.fn.String()))
		}
	}
	if len(in.stack) > 0 {
		return shortFn(in.stack[len(in.stack)-1].fn.String())
	}
	return "?"
}

// whereCode is the innermost position in the code under test or in a harness.
func (in *Interp) stackTrace() string {
	var sb strings.Builder
	for i := len(in.stack) - 1; i >= 0; i-- {
		f := in.stack[i]
		if f.instr != nil {
			p := in.prog.fset.Position(f.instr.Pos())
			fmt.Fprintf(&sb, "%s:%d (%s)\n", in.prog.rel(p.Filename), p.Line, shortFn(f.fn.String()))
		}
	}
	return sb.String()
}

func (in *Interp) global(g *ssa.Global) *value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	in.ensureInit(g.Pkg)
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	return p
}

func (in *Interp) ensureInit(pkg *ssa.Package) {
	if pkg == nil || in.inited[pkg] {
		return
	}
	in.inited[pkg] = true
	// allocate the package's globals first
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := in.globals[g]; !ok {
				p := new(value)
				*p = zero(g.Type().(*types.Pointer).Elem())
				in.globals[g] = p
			}
		}
	}
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	in.prog.build(pkg)
	init := pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	sp := in.spec
	in.spec = 0
	in.callFn(init, nil, nil)
	in.spec = sp
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "reflect", "os", "syscall", "time", "internal/godebug", "unicode", "fmt", "net", "internal/poll", "testing", "log", "math/rand", "sync", "encoding/json", "crypto", "unsafe", "internal/bytealg", "internal/cpu", "hash/crc32", "crypto/sha256", "path/filepath", "io/ioutil", "html", "text/template", "github.com/ElrondNetwork/elrond-go-logger":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "github.com/gogo/") || strings.HasPrefix(path, "github.com/golang/")
}

func (fr *frame) get(in *Interp, o *operand) value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.v
	case 2:
		return in.global(o.g)
	default:
		return fr.env[o.idx]
	}
}

// ---------- calls

func (in *Interp) call(fn value, args []value) value {
	switch fn := fn.(type) {
	case *ssa.Function:
		return in.callFn(fn, args, nil)
	case *closure:
		if fn == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return in.callFn(fn.fn, args, fn.env)
	case *nativeFn:
		return fn.f(in, args)
	case *ssa.Builtin:
		return in.builtin(fn, args, nil)
	case nil:
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	in.unsupported(fmt.Sprintf("call of %T", fn))
	return nil
}

const maxDepth = 400

func (in *Interp) callFn(fn *ssa.Function, args []value, env []value) value {
	name := fn.String()
	if f := in.prog.intrinsic(fn, name); f != nil {
		return f(in, args)
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			in.prog.build(fn.Pkg)
		}
		if fn.Blocks == nil {
			in.unsupported("no body for " + name)
		}
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		in.funcs[name] = true
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" && fn.Pkg != nil && fn.Pkg.Func("init") == fn {
		if !in.inited[fn.Pkg] {
			// imported package initialiser: lazily, on first use of a global
			return nil
		}
	}
	in.depth++
	if in.depth > maxDepth {
		panic(pathEnd{"bound", "call depth"})
	}
	cf := in.prog.compile(fn)
	fr := &frame{fn: fn, cf: cf, regs: make([]value, cf.nslots), env: env}
	copy(fr.regs, args)
	in.stack = append(in.stack, fr)
	n := len(in.stack)
	defer func() {
		in.stack = in.stack[:n-1]
		in.depth--
	}()
	in.runFrame(fr)
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	if !hasDefer(fr.cf) {
		in.runBlocks(fr, 0, -1, -1)
		return
	}
	in.runWithDefers(fr, 0)
}

var deferMemo sync.Map

func hasDefer(cf *compiledFn) bool {
	if v, ok := deferMemo.Load(cf); ok {
		return v.(bool)
	}
	r := false
	for _, b := range cf.fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	deferMemo.Store(cf, r)
	return r
}

// runWithDefers runs the body; on a target panic it runs deferred calls and,
// if recovered, continues at the recover block.
func (in *Interp) runWithDefers(fr *frame, start int) {
	nstack := len(in.stack)
	depth := in.depth
	spec := in.spec
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(targetPanic)
				if !ok {
					panic(r)
				}
				if spec != in.spec {
					panic(r)
				}
				in.stack = in.stack[:nstack]
				in.depth = depth
				fr.panicking = true
				fr.panicv = tp
			}
		}()
		in.runBlocks(fr, start, -1, -1)
	}()
	if fr.panicking {
		in.runDefers(fr)
		// still panicking?
		if fr.panicking {
			panic(fr.panicv)
		}
		if fr.fn.Recover != nil {
			in.runBlocks(fr, fr.fn.Recover.Index, -1, -1)
		} else {
			fr.result = zero(fr.fn.Signature.Results())
			if fr.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
		}
	}
}

func (in *Interp) runDefers(fr *frame) {
	nstack := len(in.stack)
	depth := in.depth
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					in.stack = in.stack[:nstack]
					in.depth = depth
					fr.panicking = true
					fr.panicv = tp
				}
			}()
			in.callDeferred(fr, d)
		}()
	}
}

func (in *Interp) callDeferred(fr *frame, d *deferred) {
	// recover() inside the directly deferred function refers to fr
	var fn *ssa.Function
	var env []value
	switch f := d.fn.(type) {
	case *ssa.Function:
		fn = f
	case *closure:
		fn, env = f.fn, f.env
	default:
		if b, ok := d.fn.(*ssa.Builtin); ok && b.Name() == "recover" {
			in.doRecover(fr)
			return
		}
		in.call(d.fn, d.args)
		return
	}
	if f := in.prog.intrinsic(fn, fn.String()); f != nil {
		f(in, d.args)
		return
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		in.prog.build(fn.Pkg)
	}
	if fn.Blocks == nil {
		in.unsupported("deferred call of " + fn.String())
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		in.funcs[fn.String()] = true
	}
	cf := in.prog.compile(fn)
	nf := &frame{fn: fn, cf: cf, regs: make([]value, cf.nslots), env: env, isDefer: fr}
	copy(nf.regs, d.args)
	in.stack = append(in.stack, nf)
	n := len(in.stack)
	in.depth++
	defer func() {
		in.stack = in.stack[:n-1]
		in.depth--
	}()
	in.runFrame(nf)
}

func (in *Interp) doRecover(fr *frame) value {
	if fr != nil && fr.panicking {
		fr.panicking = false
		return fr.panicv.v
	}
	return iface{}
}

func (in *Interp) goPanic(v value) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{v: v, at: in.where()})
}

func (in *Interp) runtimePanic(msg string) {
	in.goPanic(iface{t: in.prog.runtimeError, v: Str{c: msg}})
}

func (in *Interp) goPanicStr(msg string) { in.runtimePanic(msg) }

// runBlocks executes from block start. If join >= 0 it returns when that block
// is reached (reporting the predecessor); used by the branch merger.
// It returns (reachedJoin, predecessor of join).
func (in *Interp) runBlocks(fr *frame, start, prev, join int) (bool, int) {
	b := start
	skipPhis := false
	for {
		if b == join {
			return true, prev
		}
		code := fr.cf.blocks[b]
		next := -1
		if fr.visited != nil {
			fr.visited[b] = true
		}
		// phis in parallel
		i := 0
		if len(code) > 0 {
			if _, ok := code[0].ins.(*ssa.Phi); ok {
				if skipPhis {
					for i < len(code) {
						if _, ok := code[i].ins.(*ssa.Phi); !ok {
							break
						}
						i++
					}
				} else {
					i = in.evalPhis(fr, b, prev)
				}
			}
		}
		skipPhis = false
		for ; i < len(code); i++ {
			ci := &code[i]
			fr.instr = ci.ins
			in.steps++
			if in.steps > in.maxSteps {
				panic(pathEnd{"bound", "step limit"})
			}
			switch ins := ci.ins.(type) {
			case *ssa.If:
				c := fr.get(in, &ci.ops[0]).(*Term)
				if c.isConst() {
					if c.k == 1 {
						next = ins.Block().Succs[0].Index
					} else {
						next = ins.Block().Succs[1].Index
					}
					break
				}
				if kb, ok := in.known[c]; ok {
					if kb {
						next = ins.Block().Succs[0].Index
					} else {
						next = ins.Block().Succs[1].Index
					}
					break
				}
				if j, ok, returned := in.tryMerge(fr, b, c); ok {
					if returned {
						return false, -1
					}
					next = j
					skipPhis = true
					break
				}
				if in.decide(c) {
					next = ins.Block().Succs[0].Index
				} else {
					next = ins.Block().Succs[1].Index
				}
			case *ssa.Jump:
				next = ins.Block().Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = copyVal(fr.get(in, &ci.ops[0]))
				default:
					r := make(tuple, len(ci.ops))
					for k := range ci.ops {
						r[k] = copyVal(fr.get(in, &ci.ops[k]))
					}
					fr.result = r
				}
				return false, -1
			case *ssa.Panic:
				in.goPanic(fr.get(in, &ci.ops[0]))
			case *ssa.RunDefers:
				in.noSpec()
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.panicv)
				}
			case *ssa.Defer:
				in.noSpec()
				fn, args := in.prepareCall(fr, &ins.Call, ci.ops)
				fr.defers = append(fr.defers, &deferred{fn, args})
			default:
				v := in.exec(fr, ci)
				if ci.dst >= 0 {
					fr.regs[ci.dst] = v
				}
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			in.unsupported("fell off block")
		}
		prev, b = b, next
		if skipPhis && b == join {
			// the merged block is the join of an outer merge: its phis are already set
			return true, -2
		}
	}
}

func (in *Interp) noSpec() {
	if in.spec > 0 {
		panic(specAbort{})
	}
}

func predIndex(b *ssa.BasicBlock, prev int) int {
	for i, p := range b.Preds {
		if p.Index == prev {
			return i
		}
	}
	return -1
}

func (in *Interp) evalPhis(fr *frame, b, prev int) int {
	blk := fr.fn.Blocks[b]
	pi := predIndex(blk, prev)
	code := fr.cf.blocks[b]
	var tmp []value
	n := 0
	for n < len(code) {
		if _, ok := code[n].ins.(*ssa.Phi); !ok {
			break
		}
		tmp = append(tmp, fr.get(in, &code[n].ops[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		fr.regs[code[k].dst] = tmp[k]
	}
	return n
}

// tryMerge executes both arms of a symbolic branch speculatively and merges the
// results with if-then-else terms when both arms are free of side effects.
func (in *Interp) tryMerge(fr *frame, b int, c *Term) (next int, ok bool, returned bool) {
	if noMerge {
		return 0, false, false
	}
	if in.spec > 6 {
		return 0, false, false
	}
	join := fr.cf.ipdom[b]
	succs := fr.fn.Blocks[b].Succs
	type res struct {
		joined bool
		phis   []value
		ret    value
	}
	nphis := 0
	if join >= 0 {
		for _, ci := range fr.cf.blocks[join] {
			if _, ok := ci.ins.(*ssa.Phi); ok {
				nphis++
			} else {
				break
			}
		}
	}
	saveSteps := in.steps
	saveTraceLen := len(in.trace)
	nstack := len(in.stack)
	depth := in.depth
	arm := func(s int, assume bool) (r res, ok bool) {
		in.spec++
		saveArm := in.arm
		in.armN++
		in.arm = in.armN
		saveKnown, had := in.known[c]
		in.known[c] = assume
		if in.specAlloc == nil {
			in.specAlloc = map[*value]int64{}
		}
		defer func() {
			in.spec--
			in.arm = saveArm
			if had {
				in.known[c] = saveKnown
			} else {
				delete(in.known, c)
			}
			if x := recover(); x != nil {
				if _, is := x.(specAbort); is {
					in.stack = in.stack[:nstack]
					in.depth = depth
					ok = false
					return
				}
				panic(x)
			}
		}()
		start := in.steps
		oldMax := in.maxSteps
		if start+3000 < oldMax {
			in.maxSteps = start + 3000
		}
		defer func() {
			in.maxSteps = oldMax
			if x := recover(); x != nil {
				if pe, is := x.(pathEnd); is && (pe.kind == "bound" || pe.kind == "unsupported") {
					panic(specAbort{})
				}
				panic(x)
			}
		}()
		savedRes := fr.result
		j, prev := in.runBlocks(fr, s, b, join)
		r.joined = j
		if j {
			for k := 0; k < nphis; k++ {
				ci := fr.cf.blocks[join][k]
				if prev == -2 {
					r.phis = append(r.phis, fr.regs[ci.dst])
				} else {
					pi := predIndex(fr.fn.Blocks[join], prev)
					r.phis = append(r.phis, fr.get(in, &ci.ops[pi]))
				}
			}
		} else {
			r.ret = fr.result
		}
		fr.result = savedRes
		return r, true
	}
	curInstr := fr.instr
	// the arms may run loop iterations of this frame: its registers are put back
	// before the second arm and after both
	saveRegs := append([]value(nil), fr.regs...)
	saveDefers := len(fr.defers)
	outer := fr.visited
	fr.visited = map[int]bool{}
	defer func() {
		fr.instr = curInstr
		for v := range fr.visited {
			if outer != nil {
				outer[v] = true
			}
		}
		fr.visited = outer
	}()
	r1, ok1 := arm(succs[0].Index, true)
	regs1 := append([]value(nil), fr.regs...)
	copy(fr.regs, saveRegs)
	if !ok1 {
		in.steps = saveSteps
		in.failMerge(saveTraceLen)
		return 0, false, false
	}
	r2, ok2 := arm(succs[1].Index, false)
	regs2 := append([]value(nil), fr.regs...)
	copy(fr.regs, saveRegs)
	if len(fr.defers) != saveDefers {
		panic("engine: defer inside a speculative arm")
	}
	if !ok2 || r1.joined != r2.joined {
		in.steps = saveSteps
		in.failMerge(saveTraceLen)
		return 0, false, false
	}
	if r1.joined {
		// an arm that went round a loop computed registers again that live on
		type reg struct {
			dst int
			v   value
		}
		var again []reg
		for v := range fr.visited {
			blk := fr.fn.Blocks[v]
			if v == join || !blk.Dominates(fr.fn.Blocks[b]) {
				continue
			}
			for k := range fr.cf.blocks[v] {
				dst := fr.cf.blocks[v][k].dst
				if dst < 0 {
					continue
				}
				m, ok := in.merge(c, regs1[dst], regs2[dst])
				if !ok {
					in.failMerge(saveTraceLen)
					return 0, false, false
				}
				again = append(again, reg{int(dst), m})
			}
		}
		merged := make([]value, nphis)
		for k := 0; k < nphis; k++ {
			m, ok := in.merge(c, r1.phis[k], r2.phis[k])
			if !ok {
				in.failMerge(saveTraceLen)
				return 0, false, false
			}
			merged[k] = m
		}
		for _, r := range again {
			fr.regs[r.dst] = r.v
		}
		for k := 0; k < nphis; k++ {
			fr.regs[fr.cf.blocks[join][k].dst] = merged[k]
		}
		return join, true, false
	}
	m, okm := in.merge(c, r1.ret, r2.ret)
	if !okm {
		in.failMerge(saveTraceLen)
		return 0, false, false
	}
	fr.result = m
	return 0, true, true
}

func (in *Interp) failMerge(n int) {
	if len(in.trace) != n {
		panic("engine: decisions inside a speculative arm")
	}
}

func (in *Interp) merge(c *Term, a, b value) (value, bool) {
	switch a := a.(type) {
	case *Term:
		bt, ok := b.(*Term)
		if !ok || bt.w != a.w {
			return nil, false
		}
		return in.ctx.Ite(c, a, bt), true
	case bigV:
		bv, ok := b.(bigV)
		if !ok {
			return nil, false
		}
		x, y := in.bigAlign(a, bv)
		return in.normBig(in.ctx.Ite(c, x, y)), true
	case tuple:
		bt, ok := b.(tuple)
		if !ok || len(a) != len(bt) {
			return nil, false
		}
		r := make(tuple, len(a))
		for i := range a {
			m, ok := in.merge(c, a[i], bt[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case Str:
		bs, ok := b.(Str)
		if !ok || a.len() != bs.len() {
			return nil, false
		}
		if a.t == nil && bs.t == nil && a.c == bs.c {
			return a, true
		}
		out := make([]*Term, a.len())
		for i := range out {
			out[i] = in.ctx.Ite(c, a.at(i), bs.at(i))
		}
		return mkStr(out), true
	case *value:
		bp, ok := b.(*value)
		return a, ok && a == bp
	case iface:
		bi, ok := b.(iface)
		if !ok {
			return nil, false
		}
		if a.t == nil && bi.t == nil {
			return a, true
		}
		if a.t == nil || bi.t == nil || !types.Identical(a.t, bi.t) {
			return nil, false
		}
		m, ok := in.merge(c, a.v, bi.v)
		if !ok {
			return nil, false
		}
		return iface{a.t, m}, true
	case nil:
		return nil, b == nil
	case *Map:
		bm, ok := b.(*Map)
		return a, ok && a == bm
	case slice:
		bs, ok := b.(slice)
		if !ok {
			return nil, false
		}
		if a == nil && bs == nil {
			return a, true
		}
		if a != nil && bs != nil && len(a) == len(bs) && cap(a) == cap(bs) {
			if cap(a) == 0 || &a[:1][0] == &bs[:1][0] {
				return a, true
			}
		}
		return nil, false
	case *ssa.Function:
		bf, ok := b.(*ssa.Function)
		return a, ok && a == bf
	case float64:
		bf, ok := b.(float64)
		return a, ok && a == bf
	}
	return nil, false
}

func (in *Interp) prepareCall(fr *frame, call *ssa.CallCommon, ops []operand) (value, []value) {
	v := fr.get(in, &ops[0])
	if !call.IsInvoke() {
		args := make([]value, len(ops)-1)
		for i := range args {
			args[i] = copyVal(fr.get(in, &ops[i+1]))
		}
		return v, args
	}
	recv := v.(iface)
	if f := in.invokeIntrinsic(call, recv); f != nil {
		args := make([]value, len(ops))
		args[0] = recv
		for i := 1; i < len(ops); i++ {
			args[i] = copyVal(fr.get(in, &ops[i]))
		}
		return f, args
	}
	if recv.t == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	fn := in.prog.lookupMethod(recv.t, call.Method)
	if fn == nil {
		in.unsupported("no method " + call.Method.Name() + " on " + recv.t.String())
	}
	args := make([]value, len(ops))
	args[0] = copyVal(recv.v)
	for i := 1; i < len(ops); i++ {
		args[i] = copyVal(fr.get(in, &ops[i]))
	}
	return fn, args
}

func (in *Interp) load(p value) value {
	pp, ok := p.(*value)
	if !ok {
		if u, isU := p.(unsafePtr); isU {
			if pp, ok = u.p.(*value); !ok {
				in.unsupported("load through unsafe pointer")
			}
		} else {
			in.unsupported(fmt.Sprintf("load from %T", p))
		}
	}
	if pp == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	return copyVal(*pp)
}

func (in *Interp) exec(fr *frame, ci *cinstr) value {
	switch ins := ci.ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.UnOp:
		return in.unop(ins, fr.get(in, &ci.ops[0]))
	case *ssa.BinOp:
		return in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]))
	case *ssa.Call:
		fn, args := in.prepareCall(fr, &ins.Call, ci.ops)
		if b, ok := fn.(*ssa.Builtin); ok {
			return in.builtinIn(fr, b, args, &ins.Call)
		}
		r := in.call(fn, args)
		return r
	case *ssa.ChangeInterface:
		return fr.get(in, &ci.ops[0])
	case *ssa.ChangeType:
		return fr.get(in, &ci.ops[0])
	case *ssa.Convert:
		return in.convert(ins.Type(), ins.X.Type(), fr.get(in, &ci.ops[0]))
	case *ssa.MultiConvert:
		return in.convert(ins.Type(), ins.X.Type(), fr.get(in, &ci.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in, &ci.ops[0]).(slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			in.runtimePanic("cannot convert slice to array pointer: length")
		}
		if n == 0 {
			p := new(value)
			*p = array{}
			return p
		}
		p := new(value)
		*p = array(s[:n:n])
		return p
	case *ssa.MakeInterface:
		return iface{t: ins.X.Type(), v: copyVal(fr.get(in, &ci.ops[0]))}
	case *ssa.Extract:
		return fr.get(in, &ci.ops[0]).(tuple)[ins.Index]
	case *ssa.Slice:
		return in.sliceOp(ins, fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]), fr.get(in, &ci.ops[2]), fr.get(in, &ci.ops[3]))
	case *ssa.Alloc:
		p := new(value)
		*p = zero(ins.Type().Underlying().(*types.Pointer).Elem())
		if in.spec > 0 {
			in.specAlloc[p] = in.arm
		}
		return p
	case *ssa.Store:
		in.store(fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]))
		return nil
	case *ssa.FieldAddr:
		p, ok := fr.get(in, &ci.ops[0]).(*value)
		if !ok {
			in.unsupported("field of unsafe pointer")
		}
		if p == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(structure)
		if !ok {
			in.unsupported(fmt.Sprintf("field address of %T (%s)", *p, ins.X.Type()))
		}
		q := &st[ins.Field]
		if in.spec > 0 && in.specAlloc[p] == in.arm {
			in.specAlloc[q] = in.arm
		}
		return q
	case *ssa.Field:
		return copyVal(fr.get(in, &ci.ops[0]).(structure)[ins.Field])
	case *ssa.IndexAddr:
		return in.indexAddr(ins, fr.get(in, &ci.ops[0]), in.intTerm(fr.get(in, &ci.ops[1])))
	case *ssa.Index:
		return in.indexVal(ins, fr.get(in, &ci.ops[0]), in.intTerm(fr.get(in, &ci.ops[1])))
	case *ssa.Lookup:
		return in.lookup(ins, fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]))
	case *ssa.MapUpdate:
		in.noSpec()
		m := fr.get(in, &ci.ops[0]).(*Map)
		in.mapSet(m, fr.get(in, &ci.ops[1]), copyVal(fr.get(in, &ci.ops[2])))
		return nil
	case *ssa.MakeMap:
		return newMap()
	case *ssa.MakeSlice:
		return in.makeSlice(ins.Type(), in.intTerm(fr.get(in, &ci.ops[0])), in.intTerm(fr.get(in, &ci.ops[1])), ins.Len.Type())
	case *ssa.MakeClosure:
		env := make([]value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(in, &ci.ops[i+1])
		}
		return &closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.MakeChan:
		return &chanV{}
	case *ssa.Range:
		x := fr.get(in, &ci.ops[0])
		if s, ok := x.(Str); ok {
			return &strIter{s: s}
		}
		in.noSpec()
		return in.mapIter(x.(*Map))
	case *ssa.Next:
		in.noSpec()
		it := fr.get(in, &ci.ops[0])
		switch it := it.(type) {
		case *mapIter:
			r := it.next(in).(tuple)
			if r[1] == nil {
				tt := ins.Type().(*types.Tuple)
				r = tuple{tFalse, safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())}
			}
			return r
		case *strIter:
			return in.strNext(it)
		}
	case *ssa.TypeAssert:
		return in.typeAssert(ins, fr.get(in, &ci.ops[0]).(iface))
	case *ssa.Go:
		fn, args := in.prepareCall(fr, &ins.Call, ci.ops)
		in.spawn(fn, args)
		return nil
	case *ssa.Select, *ssa.Send:
		in.unsupported(fmt.Sprintf("%T", ins))
	}
	in.unsupported(fmt.Sprintf("instruction %T", ci.ins))
	return nil
}

func safeZero(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (in *Interp) store(addr, v value) {
	p, ok := addr.(*value)
	if !ok {
		in.unsupported(fmt.Sprintf("store to %T", addr))
	}
	if p == nil {
		in.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if in.spec > 0 && in.specAlloc[p] != in.arm {
		panic(specAbort{})
	}
	storeVal(p, v)
}

func (in *Interp) strNext(it *strIter) value {
	if it.pos >= it.s.len() {
		return tuple{tFalse, K(64, 0), K(32, 0)}
	}
	i := it.pos
	b := it.s.at(i)
	if it.s.t == nil {
		for j, r := range it.s.c[i:] {
			_ = j
			n := len(string(r))
			if r == 0xFFFD {
				// either a real U+FFFD or an invalid byte
				if strings.HasPrefix(it.s.c[i:], "\xef\xbf\xbd") {
					n = 3
				} else {
					n = 1
				}
			}
			it.pos += n
			return tuple{tTrue, K(64, uint64(i)), K(32, uint64(uint32(r)))}
		}
	}
	if in.decide(in.ctx.ULT(b, K(8, 0x80))) {
		it.pos++
		return tuple{tTrue, K(64, uint64(i)), in.ctx.ZExt(b, 32)}
	}
	r, n := in.decodeRune(it.s, i)
	it.pos += n
	return tuple{tTrue, K(64, uint64(i)), r}
}

// decodeRune decodes a non-ASCII rune at i (forking on the encoding class).
func (in *Interp) decodeRune(s Str, i int) (*Term, int) {
	c := in.ctx
	bad := K(32, 0xFFFD)
	rng := func(t *Term, lo, hi uint64) *Term { return c.And(c.ULE(K(8, lo), t), c.ULE(t, K(8, hi))) }
	b0 := s.at(i)
	rest := s.len() - i
	z := func(t *Term) *Term { return c.ZExt(t, 32) }
	cont := func(k int) *Term { return c.ZExt(c.Extract(s.at(i+k), 5, 0), 32) }
	if in.decide(rng(b0, 0xC2, 0xDF)) {
		if rest < 2 || !in.decide(rng(s.at(i+1), 0x80, 0xBF)) {
			return bad, 1
		}
		return c.BOr(c.Shl(z(c.Extract(b0, 4, 0)), K(32, 6)), cont(1)), 2
	}
	if in.decide(rng(b0, 0xE0, 0xEF)) {
		if rest < 3 {
			// still need to know nothing more: invalid
			return bad, 1
		}
		lo := c.Ite(c.Eq(b0, K(8, 0xE0)), K(8, 0xA0), K(8, 0x80))
		hi := c.Ite(c.Eq(b0, K(8, 0xED)), K(8, 0x9F), K(8, 0xBF))
		ok := c.And(c.And(c.ULE(lo, s.at(i+1)), c.ULE(s.at(i+1), hi)), rng(s.at(i+2), 0x80, 0xBF))
		if !in.decide(ok) {
			return bad, 1
		}
		return c.BOr(c.BOr(c.Shl(z(c.Extract(b0, 3, 0)), K(32, 12)), c.Shl(cont(1), K(32, 6))), cont(2)), 3
	}
	if in.decide(rng(b0, 0xF0, 0xF4)) {
		if rest < 4 {
			return bad, 1
		}
		lo := c.Ite(c.Eq(b0, K(8, 0xF0)), K(8, 0x90), K(8, 0x80))
		hi := c.Ite(c.Eq(b0, K(8, 0xF4)), K(8, 0x8F), K(8, 0xBF))
		ok := c.And(c.And(c.ULE(lo, s.at(i+1)), c.ULE(s.at(i+1), hi)), c.And(rng(s.at(i+2), 0x80, 0xBF), rng(s.at(i+3), 0x80, 0xBF)))
		if !in.decide(ok) {
			return bad, 1
		}
		r := c.Shl(z(c.Extract(b0, 2, 0)), K(32, 18))
		r = c.BOr(r, c.Shl(cont(1), K(32, 12)))
		r = c.BOr(r, c.Shl(cont(2), K(32, 6)))
		return c.BOr(r, cont(3)), 4
	}
	return bad, 1
}

func (in *Interp) unop(ins *ssa.UnOp, x value) value {
	c := in.ctx
	switch ins.Op {
	case token.MUL:
		return in.load(x)
	case token.NOT:
		return c.Not(x.(*Term))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return c.Neg(in.intTerm(x))
	case token.XOR:
		return c.BNot(in.intTerm(x))
	case token.ARROW:
		ch := x.(*chanV)
		in.noSpec()
		if ch == nil || len(ch.buf) == 0 {
			in.unsupported("channel receive")
		}
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if ins.CommaOk {
			return tuple{v, tTrue}
		}
		return v
	}
	in.unsupported("unop " + ins.Op.String())
	return nil
}

func (in *Interp) strLess(x, y Str) *Term {
	if x.t == nil && y.t == nil {
		return KBool(x.c < y.c)
	}
	n := x.len()
	if y.len() < n {
		n = y.len()
	}
	r := KBool(x.len() < y.len())
	c := in.ctx
	for i := n - 1; i >= 0; i-- {
		a, b := x.at(i), y.at(i)
		r = c.Or(c.ULT(a, b), c.And(c.Eq(a, b), r))
	}
	return r
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y value) value {
	c := in.ctx
	switch op {
	case token.EQL:
		return in.eqTerm(x, y)
	case token.NEQ:
		return c.Not(in.eqTerm(x, y))
	}
	switch xv := x.(type) {
	case Str:
		ys := y.(Str)
		switch op {
		case token.ADD:
			if xv.t == nil && ys.t == nil {
				return Str{c: xv.c + ys.c}
			}
			return mkStr(append(append([]*Term{}, xv.bytes()...), ys.bytes()...))
		case token.LSS:
			return in.strLess(xv, ys)
		case token.GTR:
			return in.strLess(ys, xv)
		case token.LEQ:
			return c.Not(in.strLess(ys, xv))
		case token.GEQ:
			return c.Not(in.strLess(xv, ys))
		}
	case float64:
		yf := y.(float64)
		switch op {
		case token.ADD:
			return xv + yf
		case token.SUB:
			return xv - yf
		case token.MUL:
			return xv * yf
		case token.QUO:
			return xv / yf
		case token.LSS:
			return KBool(xv < yf)
		case token.LEQ:
			return KBool(xv <= yf)
		case token.GTR:
			return KBool(xv > yf)
		case token.GEQ:
			return KBool(xv >= yf)
		}
	case *Term:
		yv, ok := y.(*Term)
		if !ok {
			break
		}
		w, signed, okw := widthOf(xt)
		if !okw {
			// booleans
			switch op {
			case token.AND, token.LAND:
				return c.And(xv, yv)
			case token.OR, token.LOR:
				return c.Or(xv, yv)
			}
			break
		}
		_ = w
		switch op {
		case token.ADD:
			return c.Add(xv, yv)
		case token.SUB:
			return c.Sub(xv, yv)
		case token.MUL:
			return c.Mul(xv, yv)
		case token.QUO, token.REM:
			if in.decide(c.Eq(yv, K(yv.w, 0))) {
				in.runtimePanic("integer divide by zero")
			}
			if signed {
				if op == token.QUO {
					return c.SDiv(xv, yv)
				}
				return c.SRem(xv, yv)
			}
			if op == token.QUO {
				return c.UDiv(xv, yv)
			}
			return c.URem(xv, yv)
		case token.AND:
			return c.BAnd(xv, yv)
		case token.OR:
			return c.BOr(xv, yv)
		case token.XOR:
			return c.BXor(xv, yv)
		case token.AND_NOT:
			return c.BAnd(xv, c.BNot(yv))
		case token.SHL, token.SHR:
			_, ysigned, _ := widthOf(yt)
			if ysigned && signKnown(yv) != 1 {
				if in.decide(c.SLT(yv, K(yv.w, 0))) {
					in.runtimePanic("negative shift amount")
				}
			}
			// bring the count to the operand width, saturating
			cnt := yv
			if cnt.w > xv.w {
				cnt = c.Ite(c.ULT(cnt, K(cnt.w, uint64(xv.w))), c.Extract(cnt, xv.w-1, 0), K(xv.w, uint64(xv.w)))
			} else {
				cnt = c.ZExt(cnt, xv.w)
			}
			if op == token.SHL {
				return c.Shl(xv, cnt)
			}
			if signed {
				return c.AShr(xv, cnt)
			}
			return c.LShr(xv, cnt)
		case token.LSS:
			if signed {
				return c.SLT(xv, yv)
			}
			return c.ULT(xv, yv)
		case token.LEQ:
			if signed {
				return c.SLE(xv, yv)
			}
			return c.ULE(xv, yv)
		case token.GTR:
			if signed {
				return c.SLT(yv, xv)
			}
			return c.ULT(yv, xv)
		case token.GEQ:
			if signed {
				return c.SLE(yv, xv)
			}
			return c.ULE(yv, xv)
		}
	}
	in.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

func (in *Interp) convert(dst, src types.Type, x value) value {
	c := in.ctx
	du, su := dst.Underlying(), src.Underlying()
	if db, ok := du.(*types.Basic); ok {
		if db.Kind() == types.UnsafePointer {
			if u, ok := x.(unsafePtr); ok {
				return u
			}
			if o, ok := x.(opaque); ok && o.kind == "uintptr" {
				return unsafePtr{o.data.(unsafePtr).p}
			}
			return unsafePtr{p: x}
		}
		if db.Info()&types.IsString != 0 {
			switch xv := x.(type) {
			case Str:
				return xv
			case slice:
				el := su.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return mkStr(termsOfSlice(in, xv))
				}
				// runes
				var out []*Term
				for _, e := range xv {
					out = append(out, in.encodeRune(e.(*Term))...)
				}
				return mkStr(out)
			case *Term:
				w, signed, _ := widthOf(su)
				_ = w
				return mkStr(in.encodeRune(c.resize(xv, 32, signed)))
			}
		}
		if dw, _, ok := widthOf(du); ok {
			switch xv := x.(type) {
			case *Term:
				_, ssigned, _ := widthOf(su)
				return c.resize(xv, dw, ssigned)
			case float64:
				if dw == 64 {
					if b := du.(*types.Basic); b.Info()&types.IsUnsigned != 0 {
						return K(64, uint64(xv))
					}
				}
				return K(dw, uint64(int64(xv)))
			case unsafePtr:
				return opaque{"uintptr", xv}
			case opaque:
				return xv
			}
		}
		if db.Info()&types.IsFloat != 0 {
			switch xv := x.(type) {
			case float64:
				if db.Kind() == types.Float32 {
					return float64(float32(xv))
				}
				return xv
			case *Term:
				if xv.isConst() {
					_, ssigned, _ := widthOf(su)
					if ssigned {
						return float64(sext64(xv.w, xv.k))
					}
					return float64(xv.k)
				}
				in.unsupported("symbolic float")
			}
		}
	}
	switch d := du.(type) {
	case *types.Slice:
		if s, ok := x.(Str); ok {
			el := d.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				r := make(slice, s.len())
				for i := range r {
					r[i] = s.at(i)
				}
				return r
			}
			r := make(slice, 0)
			it := &strIter{s: s}
			for {
				t := in.strNext(it).(tuple)
				if t[0] == tFalse {
					return r
				}
				r = append(r, t[2])
			}
		}
		return x
	case *types.Pointer:
		if u, ok := x.(unsafePtr); ok {
			if u.p == nil {
				return (*value)(nil)
			}
			if o, ok := u.p.(opaque); ok {
				return o
			}
			return u.p
		}
		return x
	}
	_ = su
	return x
}

func (in *Interp) encodeRune(r *Term) []*Term {
	c := in.ctx
	if r.isConst() {
		var out []*Term
		for _, b := range []byte(string(rune(int32(r.k)))) {
			out = append(out, K(8, uint64(b)))
		}
		return out
	}
	if in.decide(c.ULT(r, K(32, 0x80))) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	if in.decide(c.ULT(r, K(32, 0x800))) {
		return []*Term{c.BOr(K(8, 0xC0), c.Extract(c.LShr(r, K(32, 6)), 7, 0)), c.BOr(K(8, 0x80), c.ZExt(c.Extract(r, 5, 0), 8))}
	}
	in.unsupported("encoding a symbolic rune >= U+0800")
	return nil
}

// boundsCheck forks on idx < n (unsigned) and panics on the other side.
func (in *Interp) boundsCheck(idx *Term, n int) {
	ok := in.ctx.ULT(idx, KB(idx.w, big.NewInt(int64(n))))
	if idx.w < 32 && n >= 1<<uint(idx.w) {
		ok = tTrue
	}
	if ok.isConst() {
		if ok.k == 0 {
			in.runtimePanic(fmt.Sprintf("index out of range [%s] with length %d", idxText(idx), n))
		}
		return
	}
	if !in.decide(ok) {
		in.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func idxText(t *Term) string {
	if t.isConst() {
		return t.csigned().String()
	}
	return "?"
}

func (in *Interp) extIdx(idx *Term, t types.Type) *Term {
	_, signed, _ := widthOf(t)
	return in.ctx.resize(idx, 64, signed)
}

func (in *Interp) indexAddr(ins *ssa.IndexAddr, x value, idx *Term) value {
	idx = in.extIdx(idx, ins.Index.Type())
	var elems []value
	specBase := false
	switch xv := x.(type) {
	case slice:
		elems = xv
	case *value:
		if xv == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		elems = (*xv).(array)
		specBase = in.spec > 0 && in.specAlloc[xv] == in.arm
	default:
		in.unsupported(fmt.Sprintf("index address of %T", x))
	}
	in.boundsCheck(idx, len(elems))
	if !idx.isConst() {
		// read-only scalar tables: return a pointer to a fresh ite cell if every use is a load
		if onlyLoaded(ins) && allScalar(elems) && len(elems) <= 512 {
			p := new(value)
			*p = in.selectIte(elems, idx)
			return p
		}
		k := in.concretize(idx, len(elems)+1, "symbolic index")
		idx = K(64, k)
	}
	q := &elems[idx.k]
	if specBase {
		in.specAlloc[q] = in.arm
	}
	return q
}

func onlyLoaded(ins *ssa.IndexAddr) bool {
	for _, r := range *ins.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
	}
	return true
}

func allScalar(vs []value) bool {
	for _, v := range vs {
		if _, ok := v.(*Term); !ok {
			return false
		}
	}
	return true
}

func (in *Interp) selectIte(vs []value, idx *Term) *Term {
	r := vs[len(vs)-1].(*Term)
	for i := len(vs) - 2; i >= 0; i-- {
		r = in.ctx.Ite(in.ctx.Eq(idx, K(64, uint64(i))), vs[i].(*Term), r)
	}
	return r
}

func (in *Interp) indexVal(ins *ssa.Index, x value, idx *Term) value {
	idx = in.extIdx(idx, ins.Index.Type())
	switch xv := x.(type) {
	case array:
		in.boundsCheck(idx, len(xv))
		if !idx.isConst() {
			if allScalar(xv) {
				return in.selectIte(xv, idx)
			}
			idx = K(64, in.concretize(idx, len(xv)+1, "symbolic index"))
		}
		return copyVal(xv[idx.k])
	case Str:
		return in.strIndex(xv, idx)
	}
	in.unsupported(fmt.Sprintf("index of %T", x))
	return nil
}

func (in *Interp) strIndex(s Str, idx *Term) value {
	in.boundsCheck(idx, s.len())
	if idx.isConst() {
		return s.at(int(idx.k))
	}
	vs := make([]value, s.len())
	for i := range vs {
		vs[i] = s.at(i)
	}
	return in.selectIte(vs, idx)
}

func (in *Interp) lookup(ins *ssa.Lookup, x, k value) value {
	switch xv := x.(type) {
	case Str:
		return in.strIndex(xv, in.extIdx(in.intTerm(k), ins.Index.Type()))
	case *Map:
		e := in.mapFind(xv, k)
		vt := ins.X.Type().Underlying().(*types.Map).Elem()
		var v value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = zero(vt)
		}
		if ins.CommaOk {
			return tuple{v, KBool(e != nil)}
		}
		return v
	}
	in.unsupported(fmt.Sprintf("lookup in %T", x))
	return nil
}

const maxAlloc = 1 << 20

// watchAlloc reports an allocation above the limit the harness set.
func (in *Interp) watchAlloc(t types.Type, n *Term) {
	l, ok := in.extra["allocLimit"].(uint64)
	if !ok {
		return
	}
	sz := uint64(types.SizesFor("gc", "amd64").Sizeof(t.Underlying().(*types.Slice).Elem()))
	if sz == 0 {
		return
	}
	if in.decide(in.ctx.ULT(K(64, l/sz), n)) {
		in.report(in.extra["allocWhat"].(string), in.where())
	}
}

func (in *Interp) makeSlice(t types.Type, n, cp *Term, lt types.Type) value {
	n = in.extIdx(n, lt)
	if !n.isConst() {
		if in.spec > 0 {
			panic(specAbort{})
		}
		if in.decide(in.ctx.SLT(n, K(64, 0))) {
			in.runtimePanic("makeslice: len out of range")
		}
		in.watchAlloc(t, n)
		lim := in.prog.symAllocMax
		if !in.decide(in.ctx.ULE(n, K(64, uint64(lim)))) {
			// An allocation of symbolic size above the bound: outside the claim,
			// unless the harness watches allocation sizes.
			if cb, ok := in.extra["onBigAlloc"]; ok {
				in.call(cb, []value{n})
			}
			if _, ok := in.extra["allocLimit"]; ok {
				panic(pathEnd{"infeasible", "allocation within the limit"})
			}
			panic(pathEnd{"bound", fmt.Sprintf("allocation of more than %d elements", lim)})
		}
		n = K(64, in.concretize(n, lim+2, "symbolic allocation size"))
		if !cp.isConst() {
			cp = n
		}
	}
	cp = in.ctx.resize(cp, 64, true)
	ln := int64(n.k)
	cn := int64(cp.k)
	if cn < ln {
		cn = ln
	}
	if ln < 0 || cn < 0 {
		in.runtimePanic("makeslice: len out of range")
	}
	in.watchAlloc(t, K(64, uint64(cn)))
	if cn > maxAlloc {
		if cb, ok := in.extra["onBigAlloc"]; ok {
			in.call(cb, []value{n})
		}
		panic(pathEnd{"bound", "large allocation"})
	}
	el := t.Underlying().(*types.Slice).Elem()
	s := make(slice, cn)
	z := zero(el)
	for i := range s {
		s[i] = copyVal(z)
	}
	return s[:ln:cn]
}

func (in *Interp) sliceOp(ins *ssa.Slice, x, lo, hi, mx value) value {
	c := in.ctx
	var n, cp int
	var base []value
	var str Str
	isStr := false
	switch xv := x.(type) {
	case Str:
		isStr, str = true, xv
		n, cp = xv.len(), xv.len()
	case slice:
		base = xv
		n, cp = len(xv), cap(xv)
	case *value:
		if xv == nil {
			in.runtimePanic("invalid memory address or nil pointer dereference")
		}
		a := (*xv).(array)
		base = a
		n, cp = len(a), len(a)
	default:
		in.unsupported(fmt.Sprintf("slice of %T", x))
	}
	lt := K(64, 0)
	ht := K(64, uint64(n))
	mt := K(64, uint64(cp))
	if lo != nil {
		lt = in.extIdx(in.intTerm(lo), ins.Low.Type())
	}
	if hi != nil {
		ht = in.extIdx(in.intTerm(hi), ins.High.Type())
	}
	if mx != nil {
		mt = in.extIdx(in.intTerm(mx), ins.Max.Type())
	}
	ok := c.And(c.ULE(lt, ht), c.And(c.ULE(ht, mt), c.ULE(mt, K(64, uint64(cp)))))
	if isStr {
		ok = c.And(c.ULE(lt, ht), c.ULE(ht, K(64, uint64(cp))))
	}
	if !in.decide(ok) {
		in.runtimePanic("slice bounds out of range")
	}
	l := int(in.concretize(lt, cp+2, "slice low bound"))
	h := int(in.concretize(ht, cp+2, "slice high bound"))
	m := int(in.concretize(mt, cp+2, "slice max bound"))
	if isStr {
		return str.sub(l, h)
	}
	if base == nil {
		return slice(nil)
	}
	r := base[l:h:m]
	return slice(r)
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x iface) value {
	var ok bool
	var v value
	if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
		ok = x.t != nil && in.prog.implements(x.t, it)
		v = x
		if !ok {
			v = iface{}
		}
	} else {
		ok = x.t != nil && types.Identical(x.t, ins.AssertedType)
		if ok {
			v = x.v
		} else {
			v = zero(ins.AssertedType)
		}
	}
	if ins.CommaOk {
		return tuple{v, KBool(ok)}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		in.runtimePanic("interface conversion: interface is " + d + ", not " + ins.AssertedType.String())
	}
	return v
}

func (in *Interp) builtinIn(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	if b.Name() == "recover" {
		in.noSpec()
		return in.doRecover(fr.isDefer)
	}
	return in.builtin(b, args, call)
}

func (in *Interp) builtin(b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	c := in.ctx
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return K(64, uint64(x.len()))
		case slice:
			return K(64, uint64(len(x)))
		case array:
			return K(64, uint64(len(x)))
		case *Map:
			if x == nil {
				return K(64, 0)
			}
			return K(64, uint64(x.n))
		case *value:
			return K(64, uint64(len((*x).(array))))
		case *chanV:
			return K(64, uint64(len(x.buf)))
		}
	case "cap":
		switch x := args[0].(type) {
		case slice:
			return K(64, uint64(cap(x)))
		case array:
			return K(64, uint64(len(x)))
		case *value:
			return K(64, uint64(len((*x).(array))))
		}
	case "append":
		in.noSpec()
		s := args[0].(slice)
		var add []value
		switch y := args[1].(type) {
		case Str:
			for i := 0; i < y.len(); i++ {
				add = append(add, y.at(i))
			}
		case slice:
			add = y
		}
		return in.appendSlice(s, add, elemSize(call))
	case "copy":
		dst := args[0].(slice)
		if in.spec > 0 {
			panic(specAbort{})
		}
		switch src := args[1].(type) {
		case Str:
			n := len(dst)
			if src.len() < n {
				n = src.len()
			}
			for i := 0; i < n; i++ {
				dst[i] = src.at(i)
			}
			return K(64, uint64(n))
		case slice:
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src[i])
			}
			for i := 0; i < n; i++ {
				storeVal(&dst[i], tmp[i])
			}
			return K(64, uint64(n))
		}
	case "delete":
		in.noSpec()
		in.mapDelete(args[0].(*Map), args[1])
		return nil
	case "print", "println":
		return nil
	case "panic":
		in.goPanic(args[0])
	case "min", "max":
		r := args[0].(*Term)
		_, signed, _ := widthOf(call.Args[0].Type())
		for _, a := range args[1:] {
			y := a.(*Term)
			var lt *Term
			if signed {
				lt = c.SLT(r, y)
			} else {
				lt = c.ULT(r, y)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, r, y)
			} else {
				r = c.Ite(lt, y, r)
			}
		}
		return r
	case "clear":
		in.noSpec()
		switch x := args[0].(type) {
		case *Map:
			x.entries = nil
			x.idx = map[interface{}]int{}
			x.n, x.symKeys = 0, 0
		case slice:
			for i := range x {
				if call != nil {
					x[i] = zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
				}
			}
		}
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(*value)
		if p == nil {
			in.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "recover":
		return iface{}
	case "SliceData":
		s := args[0].(slice)
		return opaque{"slicedata", &sliceData{s}}
	case "StringData":
		return opaque{"stringdata", &stringData{args[0].(Str)}}
	case "String":
		n := int(in.intTerm(args[1]).k)
		if o, ok := args[0].(opaque); ok {
			if sd, ok := o.data.(*sliceData); ok {
				return mkStr(termsOfSlice(in, sd.s[:n]))
			}
			if sd, ok := o.data.(*stringData); ok {
				return sd.s.sub(0, n)
			}
		}
		if n == 0 {
			return Str{}
		}
	case "Slice":
		n := int(in.intTerm(args[1]).k)
		if o, ok := args[0].(opaque); ok {
			if sd, ok := o.data.(*stringData); ok {
				r := make(slice, n)
				for i := range r {
					r[i] = sd.s.at(i)
				}
				return r
			}
			if sd, ok := o.data.(*sliceData); ok {
				return sd.s[:n:n]
			}
		}
	}
	in.unsupported("builtin " + b.Name())
	return nil
}

type sliceData struct{ s slice }
type stringData struct{ s Str }

func elemSize(call *ssa.CallCommon) int64 {
	if call == nil {
		return 8
	}
	st, ok := call.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return 8
	}
	return gosizes.Sizeof(st.Elem())
}

var gosizes = types.SizesFor("gc", "amd64")

func (in *Interp) appendSlice(s slice, add []value, es int64) value {
	if len(add) == 0 {
		return s
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		in.noSpec() // writes into shared capacity
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		r := s[:n]
		copy(r[len(s):], tmp)
		return r
	}
	nc := growCap(cap(s), n, es)
	r := make(slice, n, nc)
	copy(r, s)
	for i := range add {
		r[len(s)+i] = copyVal(add[i])
	}
	// the tail must hold zero values
	if nc > n {
		tail := r[n:nc]
		z := zeroLike(add[0])
		for i := range tail {
			tail[i] = copyVal(z)
		}
	}
	return r
}

// zeroLike gives a zero of the same shape as v (only used for slack capacity).
func zeroLike(v value) value {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			return tFalse
		}
		return KB(v.w, bigZero)
	case Str:
		return Str{}
	case *value:
		return (*value)(nil)
	case slice:
		return slice(nil)
	case iface:
		return iface{}
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case *Map:
		return (*Map)(nil)
	case float64:
		return float64(0)
	case bigV:
		return zeroBig()
	case *closure, *ssa.Function, *nativeFn:
		return (*closure)(nil)
	}
	return nil
}

// growCap follows runtime.growslice for the given element size.
func growCap(oldCap, n int, es int64) int {
	if es == 0 {
		return n
	}
	nc := oldCap
	double := nc + nc
	if n > double {
		nc = n
	} else if oldCap < 256 {
		nc = double
	} else {
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	mem := int64(nc) * es
	return int(roundup(mem) / es)
}

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int64) int64 {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return int64(math.Ceil(float64(n)/8192)) * 8192
}
