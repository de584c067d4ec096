package deployh

import (
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// released asserts that only a warm instance is left.
func released(e *vmh.Env, warm bool) {
	left := 0
	for _, in := range e.W.Insts {
		nd.Assert(in.Cleaned <= 1, "no instance is released twice")
		if in.Cleaned == 0 {
			left++
		}
	}
	if warm {
		nd.Assert(left <= 1, "only one instance is kept warm after the transaction")
	} else {
		nd.Assert(left == 0, "every instance is released by the end of the transaction")
	}
	nd.Assert(e.W.Dead == 0, "no instance is used after its release")
	nd.Assert(e.H.Runtime().RunningInstancesCount() == 0, "nothing is left running after the transaction")
}

// The ways a contract's function ends.
const (
	endOK = iota
	endTrap
	endSignal
	endCrash
	endGas
	nEnds
)

func end(in *vmh.Inst, how int) {
	switch how {
	case endTrap:
		in.Trap()
	case endSignal:
		in.Signal([]byte("no"))
	case endCrash:
		in.Do(func() { panic("crash") })
	case endGas:
		in.Burn(1 << 62)
		in.Finish([]byte{1})
	default:
		in.Finish([]byte{1})
	}
}

// The ways a contract starts another instance.
const (
	sExec = iota
	sDest
	sSame
	sReadOnly
	sHostDest
	sHostSame
	sCreate
	sUpgrade
	sAsync
	sCreateBad
	sUpgradeBad
	nStarts
)

func start(in *vmh.Inst, how int, to []byte, fn string, g int64) {
	switch how {
	case sExec:
		in.Nested(vmh.TransferExec, g, to, vmh.Zero32(), fn)
	case sDest:
		in.Nested(vmh.Dest, g, to, vmh.Zero32(), fn)
	case sSame:
		in.Nested(vmh.Same, g, to, vmh.Zero32(), fn)
	case sReadOnly:
		in.Nested(vmh.ReadOnly, g, to, vmh.Zero32(), fn)
	case sHostDest:
		in.HostDest(to, zero, fn, uint64(g))
	case sHostSame:
		_ = in.HostSame(to, zero, fn, uint64(g))
	case sCreate:
		in.Create(g, vmh.Zero32(), newCode, meta)
	case sUpgrade:
		in.Nested(vmh.TransferExec, g, vmh.Bob, vmh.Zero32(), "upgradeContract", newCode, meta)
	case sCreateBad:
		in.Create(g, vmh.Zero32(), []byte("?"), meta)
	case sUpgradeBad:
		in.Nested(vmh.TransferExec, g, vmh.Bob, vmh.Zero32(), "upgradeContract", []byte("?"), meta)
	default:
		in.Async(to, vmh.Zero32(), []byte(fn+"@01"))
	}
}

// tree builds contracts that start each other.
func tree(o vmh.Opt, how, inner [2]int, last int, target int) *vmh.Env {
	e, c, _ := newEnv(o)
	e.W.Derive = true
	e.AccB.Owner, e.AccB.CodeMeta = vmh.Alice, []byte{1, 0}
	to := [][]byte{vmh.Bob, vmh.Alice, vmh.New}[target]
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		start(in, how[0], to, "g", 4*part)
		if how[1] >= 0 {
			start(in, how[1], vmh.Bob, "h", 4*part)
		}
		end(in, last)
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) { end(in, last) }
	g := func(in *vmh.Inst) {
		if inner[0] >= 0 {
			start(in, inner[0], vmh.Carol, "x", part)
		}
		end(in, inner[1])
	}
	e.A.Funcs["g"], e.B.Funcs["g"], c.Funcs["init"] = g, g, g
	e.B.Funcs["h"] = func(in *vmh.Inst) { end(in, inner[1]) }
	e.C.Funcs["x"] = func(in *vmh.Inst) { end(in, inner[1]) }
	e.C.Funcs["again"] = func(in *vmh.Inst) { in.Finish([]byte{2}) }
	e.A.Funcs["again"] = func(in *vmh.Inst) { in.Finish([]byte{2}) }
	return e
}

func anyOpt() vmh.Opt {
	o := vmh.Opt{Warm: nd.Bool("warm")}
	if nd.Bool("interpreted") {
		o.AOT = 1000
	}
	return o
}

// W01_Tree runs nested calls, deployments and upgrades that end in every way.
func W01_Tree() {
	var o vmh.Opt
	var how, inner [2]int
	how[0] = nd.Choice("starts", nStarts)
	how[1] = -1
	targets := 2
	if nd.Tier() > 0 {
		o = anyOpt()
		how[1] = nd.Choice("then starts", nStarts+1) - 1
		inner[0] = nd.Choice("callee starts", 4) - 1
		targets = 3
	} else {
		o.Warm = nd.Bool("warm")
		if how[0] < sCreateBad {
			inner[0] = 2*nd.Choice("callee starts", 2) - 1
		}
	}
	inner[1] = nd.Choice("callee ends", nEnds)
	last := nd.Choice("ends", nEnds)
	e := tree(o, how, inner, last, nd.Choice("target", targets))
	_, _ = e.Call(vmh.Input(vmh.Alice, "f", gas))
	released(e, o.Warm)
	next := vmh.Carol
	if o.Warm && nd.Bool("same again") {
		next = vmh.Alice
	}
	out, err := e.Call(vmh.Input(next, "again", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the next transaction runs")
	released(e, o.Warm)
	nd.Reach("done")
}

// W01_Top runs transactions that end early.
func W01_Top() {
	o := anyOpt()
	e, c, _ := newEnv(o)
	how := nd.Choice("ends", nEnds)
	f := func(in *vmh.Inst) { end(in, how) }
	e.A.Funcs["f"], c.Funcs["init"] = f, f
	if nd.Bool("invalid") {
		c.NoMem = true
	}
	g := gas
	if nd.Bool("little gas") {
		g = uint64(nd.U8("gas"))
	}
	var err error
	var out *vmcommon.VMOutput
	switch nd.Choice("what", 5) {
	case 0:
		out, err = e.Call(vmh.Input(vmh.Alice, "f", g))
	case 1:
		out, err = e.H.RunSmartContractCreate(vmh.CreateInput(newCode, meta, g))
	case 2:
		out, err = e.Call(vmh.Input(vmh.Alice, "upgradeContract", g, newCode, meta))
	case 3:
		out, err = e.Call(vmh.Input(vmh.Alice, "missing", g))
	default:
		out, err = e.H.RunSmartContractCreate(vmh.CreateInput([]byte("?"), meta, g))
	}
	nd.Assert(err == nil || how == endCrash, "the host answers")
	nd.Assert(err != nil || out != nil, "what goes wrong is reported")
	released(e, o.Warm)
	e.C.Funcs["again"] = func(in *vmh.Inst) { in.Finish([]byte{2}) }
	out, err = e.Call(vmh.Input(vmh.Carol, "again", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the next transaction runs")
	released(e, o.Warm)
	nd.Reach("done")
}

// W01_Depth nests calls up to and beyond the allowed number of instances.
// W01_Depth nests calls up to and beyond the allowed number of instances.
func W01_Depth() {
	o := anyOpt()
	e, _, _ := newEnv(o)
	depth := 8 + nd.Choice("depth", 6)
	way := []int{vmh.TransferExec, vmh.Dest, vmh.Same}[nd.Choice("way", 3)]
	swap := nd.Bool("two contracts")
	crash := nd.Bool("crash")
	ran, most := 0, uint64(0)
	var f func(in *vmh.Inst)
	f = func(in *vmh.Inst) {
		ran++
		if n := e.H.Runtime().RunningInstancesCount(); n > most {
			most = n
		}
		level := ran
		if level < depth {
			to := vmh.Alice
			if swap && level%2 == 1 {
				to = vmh.Bob
			}
			in.Nested(way, int64(gas>>uint(level)), to, vmh.Zero32(), "f")
		} else if crash {
			in.Do(func() { panic("crash") })
		}
		in.Finish([]byte{byte(level)})
	}
	e.A.Funcs["f"], e.B.Funcs["f"] = f, f
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	nd.Assert(most < 10, "the number of running instances is bounded")
	if depth > 10 || !crash {
		vmh.NoCrash(out, err)
		if depth > 10 {
			nd.Reach("too deep")
			nd.Assert(ran == 10, "nesting beyond the limit is refused")
		} else {
			nd.Reach("allowed")
			nd.Assert(ran == depth, "nesting up to the limit is allowed")
		}
		if depth <= 10 || way == vmh.TransferExec {
			nd.Assert(out.ReturnCode == vmcommon.Ok, "refused nesting fails the call and nothing else")
		}
	}
	released(e, o.Warm)
	e.C.Funcs["again"] = func(in *vmh.Inst) { in.Finish([]byte{2}) }
	out, err = e.Call(vmh.Input(vmh.Carol, "again", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the next transaction runs")
	released(e, o.Warm)
}
