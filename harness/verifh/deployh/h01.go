package deployh

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func u64(v uint64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b
}

// inspect reports everything a contract can see of its context.
func inspect(in *vmh.Inst) {
	rt := in.W.Host.Runtime()
	n, left := int32(0), int64(0)
	in.Do(func() {
		left = elrondapi.XGetGasLeft(in.Ctx())
		n = elrondapi.XBigIntNew(in.Ctx(), 7)
	})
	v := in.W.Host.BigInt().GetOne(0)
	w := in.W.Host.BigInt().GetOne(n)
	in.Finish(u64(uint64(left)))
	in.Finish(u64(uint64(n)))
	in.Finish(v.Bytes())
	in.Finish(w.Bytes())
	in.Finish(u64(uint64(len(in.W.Host.Output().ReturnData()))))
	in.Finish([]byte(in.W.Host.Output().ReturnMessage()))
	in.Finish(rt.GetVMInput().CallValue.Bytes())
	in.Finish(rt.GetVMInput().CallerAddr)
	in.Finish(u64(uint64(len(rt.GetVMInput().ESDTTransfers))))
	in.Finish(rt.GetSCAddress())
	in.Finish([]byte(rt.Function()))
	in.Finish(u64(uint64(len(rt.Arguments()))))
	in.Finish(u64(uint64(rt.GetRuntimeBreakpointValue())))
	in.Finish(u64(rt.GetPointsUsed()))
	in.Finish(u64(rt.RunningInstancesCount()))
	if rt.ReadOnly() {
		in.Finish([]byte("read only"))
	}
	data, _ := in.Load([]byte("k"))
	in.Finish(data)
	in.Store([]byte("k"), []byte{7})
	in.Log([][]byte{{1}}, []byte{2})
	in.Finish(u64(uint64(in.Transfer(vmh.Carol, vmh.Bytes32(big.NewInt(1)), []byte("d")))))
	in.Finish(u64(uint64(in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "look"))))
}

// The second transactions.
const (
	t2Inspect = iota
	t2InspectB
	t2Fail
	t2Deploy
	t2Upgrade
	t2Async
	t2Missing
	t2Callback
	nT2
)

func second(e *vmh.Env, what int) (*vmcommon.VMOutput, error) {
	g := uint64(1) << 38
	switch what {
	case t2Inspect:
		return e.Call(vmh.Input(vmh.Alice, "inspect", g, []byte{1}))
	case t2InspectB:
		return e.Call(vmh.Input(vmh.Bob, "inspect", g))
	case t2Fail:
		return e.Call(vmh.Input(vmh.Alice, "bad", g))
	case t2Deploy:
		return e.H.RunSmartContractCreate(vmh.CreateInput([]byte("MMMM"), meta, g, []byte{3}))
	case t2Upgrade:
		return e.Call(vmh.Input(vmh.Alice, "upgradeContract", g, []byte("MMMM"), meta))
	case t2Async:
		return e.Call(vmh.Input(vmh.Alice, "later", g))
	case t2Missing:
		return e.Call(vmh.Input(vmh.Carol, "nothing", g))
	}
	in := vmh.Input(vmh.Bob, "callBack", g, []byte{0}, []byte{5})
	in.CallType = vmcommon.AsynchronousCallBack
	in.CallerAddr = vmh.Far
	return e.Call(in)
}

// programs adds the contracts of the second transaction.
func programs(e *vmh.Env) {
	m := &vmh.Contract{Code: []byte("MMMM"), Funcs: map[string]func(*vmh.Inst){}}
	m.Funcs["init"] = inspect
	e.W.Contracts = append(e.W.Contracts, m)
	e.A.Funcs["inspect"], e.B.Funcs["inspect"], e.B.Funcs["callBack"] = inspect, inspect, inspect
	look := func(in *vmh.Inst) {
		d, _ := in.Load([]byte("k"))
		in.Finish(d)
		in.Store([]byte("k"), []byte{3})
	}
	e.B.Funcs["look"] = look
	e.A.Funcs["bad"] = func(in *vmh.Inst) {
		in.Store([]byte("k"), []byte{3})
		in.Signal([]byte("bad"))
	}
	e.A.Funcs["later"] = func(in *vmh.Inst) { in.Async(vmh.Bob, vmh.Zero32(), []byte("look@01")) }
	e.AccA.Put([]byte("k"), []byte{nd.U8("stored")})
}

func compare(used, fresh *vmh.Env, what int, name string) {
	a, errA := second(used, what)
	b, errB := second(fresh, what)
	nd.Assert((errA == nil) == (errB == nil), name+": same answer")
	vmh.SameOutput(a, b, name)
	nd.Reach("compared")
}

// dirty leaves something in every part of the contexts before it goes on.
func dirty(in *vmh.Inst) {
	in.Do(func() {
		elrondapi.XBigIntNew(in.Ctx(), 5)
		elrondapi.XBigIntNew(in.Ctx(), 6)
	})
	in.Store([]byte("k"), []byte{8})
	in.Finish([]byte("left over"))
	in.Log([][]byte{{4}}, []byte{5})
	in.Transfer(vmh.Bob, vmh.Bytes32(big.NewInt(3)), []byte("x"))
}

// H01_Tree compares a host used for any call tree with a fresh one.
func H01_Tree() {
	var o vmh.Opt
	o.Warm = nd.Bool("warm")
	var how, inner [2]int
	how[0] = nd.Choice("starts", nStarts)
	how[1] = -1
	inner[0] = -1
	targets := 1
	if nd.Tier() > 0 {
		if nd.Bool("interpreted") {
			o.AOT = 1000
		}
		inner[0] = nd.Choice("callee starts", 4) - 1
		targets = 3
	}
	inner[1] = nd.Choice("callee ends", nEnds)
	last := nd.Choice("ends", nEnds)
	target := nd.Choice("target", targets)
	make1 := func() *vmh.Env {
		e := tree(o, how, inner, last, target)
		f, g := e.A.Funcs["f"], e.B.Funcs["g"]
		e.A.Funcs["f"] = func(in *vmh.Inst) { dirty(in); f(in) }
		e.B.Funcs["g"] = func(in *vmh.Inst) { dirty(in); g(in) }
		programs(e)
		return e
	}
	used, fresh := make1(), make1()
	fresh.AccA.Put([]byte("k"), used.AccA.Get([]byte("k")))
	_, _ = used.Call(vmh.Input(vmh.Alice, "f", gas, []byte{9}, []byte{8}))
	seconds := 2
	if nd.Tier() > 0 {
		seconds = nT2
	}
	t2 := nd.Choice("second", seconds)
	compare(used, fresh, t2, "a transaction after another")
}

// The first transactions that are not calls of a tree.
const (
	t1Ok = iota
	t1Signal
	t1Crash
	t1OutOfGas
	t1NoFunds
	t1Unknown
	t1BadArgs
	t1Init
	t1ReadOnly
	t1Promise
	t1Callback
	t1Built
	t1Token
	t1Deploy
	t1DeployBad
	t1Upgrade
	t1UpgradeBad
	t1Memory
	t1Schedule
	nT1
)

func first(e *vmh.Env, what int) {
	g := uint64(1) << 38
	e.A.Funcs["do"] = func(in *vmh.Inst) {
		dirty(in)
		switch what {
		case t1Signal:
			in.Signal([]byte("x"))
		case t1Crash:
			in.Do(func() { panic("crash") })
		case t1OutOfGas:
			in.Burn(1 << 60)
			in.Finish([]byte{1})
		case t1ReadOnly:
			in.Nested(vmh.ReadOnly, part, vmh.Bob, vmh.Zero32(), "bad")
			in.Nested(vmh.ReadOnly, part, vmh.Bob, vmh.Zero32(), "crash")
		case t1Promise:
			in.Do(func() {
				o := int32(in.W.MemLen)
				_ = o
				in.Put(0, vmh.Far)
				in.Put(32, vmh.Zero32())
				in.Put(64, []byte("fn@01"))
				in.Put(80, []byte("cb"))
				elrondapi.XCreateAsyncCall(in.Ctx(), 80, 2, 0, 32, 64, 5, 80, 2, 80, 2, 1000)
			})
		}
	}
	e.A.Funcs["cb"] = func(in *vmh.Inst) { dirty(in) }
	e.B.Funcs["bad"] = func(in *vmh.Inst) { dirty(in); in.Signal([]byte("y")) }
	e.B.Funcs["crash"] = func(in *vmh.Inst) { dirty(in); in.Do(func() { panic("crash") }) }
	in := vmh.Input(vmh.Alice, "do", g, []byte{9}, []byte{8})
	in.CallValue = big.NewInt(5)
	in.CallerAddr = vmh.Carol
	in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte("TOK"), ESDTValue: big.NewInt(3)}}
	in.CurrentTxHash, in.PrevTxHash, in.OriginalTxHash = []byte("other"), []byte("othe"), []byte("oth")
	in.GasLocked = 17
	switch what {
	case t1NoFunds:
		in.CallValue = big.NewInt(-1)
		in.RecipientAddr = vmh.Bob
	case t1Unknown:
		in.RecipientAddr = vmh.Far
	case t1BadArgs:
		in.Function = "nothing"
	case t1Init:
		in.Function = "init"
	case t1Callback:
		in.Function = "callBack"
		in.CallType = vmcommon.AsynchronousCallBack
	case t1Built:
		in.Function = "ab"
	case t1Upgrade:
		in.Function, in.Arguments = "upgradeContract", [][]byte{newCode, meta}
	case t1UpgradeBad:
		in.Function, in.Arguments = "upgradeContract", [][]byte{[]byte("?"), meta}
	case t1Deploy:
		_, _ = e.H.RunSmartContractCreate(vmh.CreateInput(newCode, meta, g))
		return
	case t1DeployBad:
		_, _ = e.H.RunSmartContractCreate(vmh.CreateInput([]byte("?"), meta, g))
		return
	case t1Schedule:
		bad := config.MakeGasMap(3, 3)
		delete(bad, "ElrondAPICost")
		e.H.GasScheduleChange(bad)
	}
	_, _ = e.Call(in)
}

// H01_Any compares after any kind of transaction.
func H01_Any() {
	o := vmh.Opt{Warm: nd.Bool("warm")}
	if nd.Tier() > 0 && nd.Bool("old") {
		o.AOT, o.V3, o.Dyn = 1000, 1000, 1000
	}
	what := nd.Choice("first", nT1)
	t2 := nd.Choice("second", nT2)
	make1 := func() *vmh.Env {
		e, c, _ := newEnv(o)
		c.Funcs["init"] = dirty
		programs(e)
		e.W.Builtin = func(*vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
			return &vmcommon.VMOutput{GasRemaining: 5, GasRefund: big.NewInt(0)}, nil
		}
		return e
	}
	used, fresh := make1(), make1()
	fresh.AccA.Put([]byte("k"), used.AccA.Get([]byte("k")))
	first(used, what)
	compare(used, fresh, t2, "a transaction after another")
}

// H01_Epochs compares across a change of the epoch or of the gas schedule.
func H01_Epochs() {
	o := vmh.Opt{Warm: nd.Bool("warm")}
	at := []uint32{0, 5, 1000}
	if nd.Tier() > 0 {
		o.AOT, o.V3, o.Dyn = at[nd.Choice("aot", 3)], at[nd.Choice("v3", 3)], at[nd.Choice("dyn", 3)]
		o.V2, o.ESDT = at[nd.Choice("v2", 3)], at[nd.Choice("esdt", 3)]
	} else {
		// one of the five changes its state, the others are all off or all on
		k, base := nd.Choice("flag", 5), at[2*nd.Choice("others", 2)]
		o.AOT, o.V3, o.Dyn, o.V2, o.ESDT = base, base, base, base, base
		*[]*uint32{&o.AOT, &o.V3, &o.Dyn, &o.V2, &o.ESDT}[k] = 5
	}
	sched := nd.Bool("schedule")
	t2 := []int{t2Inspect, t2Async, t2Deploy}[nd.Choice("second", 3)]
	make1 := func(c uint64) *vmh.Env {
		p := o
		p.Cost = c
		e, n, _ := newEnv(p)
		n.Funcs["init"] = dirty
		programs(e)
		e.A.Funcs["do"] = dirty
		return e
	}
	used, fresh := make1(1), make1(1)
	if sched {
		fresh = make1(3)
	}
	fresh.AccA.Put([]byte("k"), used.AccA.Get([]byte("k")))
	_, _ = used.Call(vmh.Input(vmh.Alice, "do", 1<<38))
	if sched {
		used.H.GasScheduleChange(config.MakeGasMap(3, 100))
	}
	used.W.Epoch, fresh.W.Epoch = 7, 7
	compare(used, fresh, t2, "after a new epoch or schedule")
}

// H01_Memory compares the memory a contract starts with.
func H01_Memory() {
	o := vmh.Opt{Warm: nd.Bool("warm")}
	how := nd.Choice("ends", nEnds)
	at, v := nd.Choice("at", 4), nd.U8("value")
	make1 := func() *vmh.Env {
		e, _, _ := newEnv(o)
		e.A.Funcs["do"] = func(in *vmh.Inst) {
			in.Do(func() { in.Mem.B[200+at] = v })
			end(in, how)
		}
		e.A.Funcs["see"] = func(in *vmh.Inst) {
			clean := bytes.Equal(in.Mem.B, make([]byte, len(in.Mem.B)))
			if in.Calls > 1 {
				nd.Assert(clean, "a contract reusing a warm instance starts with its initial memory")
			} else {
				nd.Assert(clean, "a contract starts with its initial memory")
			}
			in.Finish([]byte{1})
		}
		return e
	}
	used := make1()
	_, _ = used.Call(vmh.Input(vmh.Alice, "do", gas))
	out, err := used.Call(vmh.Input(vmh.Alice, "see", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the next transaction runs")
	nd.Reach("seen")
}
