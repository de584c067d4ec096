package nested

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// The ways to call another contract that carry value.
const (
	wHostDest = iota
	wHostSame
	wExec
	wDest
	wSame
)

func callOK(in *vmh.Inst, way int, to []byte, value *big.Int, value32 []byte, fn string) bool {
	switch way {
	case wHostDest:
		_, err := in.HostDest(to, value, fn, childGas)
		return err == nil
	case wHostSame:
		return in.HostSame(to, value, fn, childGas) == nil
	case wDest:
		return in.Nested(vmh.Dest, int64(childGas), to, value32, fn) == 0
	case wSame:
		return in.Nested(vmh.Same, int64(childGas), to, value32, fn) == 0
	}
	return in.Nested(vmh.TransferExec, int64(childGas), to, value32, fn) == 0
}

func whoAt(way int, to []byte, stor []byte) vmh.Who {
	if way == wHostSame || way == wSame {
		return vmh.Who{Self: to, Stor: stor}
	}
	return vmh.As(to)
}

// succeeding runs A: an effect, a call of B with one effect, another effect.
func succeeding(way, pre, callee int) {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.AnyEffect(in, pre, "before", vmh.As(vmh.Alice))
		v, b := vmh.Value("callValue")
		nd.Assume(m.Move(vmh.Alice, vmh.Bob, v))
		ok := callOK(in, way, vmh.Bob, v, b, "g")
		nd.Assert(ok, "a nested call of a contract that succeeds is reported as a success")
		m.AnyEffect(in, pre, "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		nd.Reach("callee ran")
		m.AnyEffect(in, callee, "callee", whoAt(way, vmh.Bob, vmh.Alice))
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "a call whose nested call succeeds goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
	used := uint64(0)
	for _, a := range out.OutputAccounts {
		used += a.GasUsed
	}
	nd.Assert(used+out.GasRemaining == gas, "the gas of a nested call is accounted for")
}

// A02_Dest is a call in the callee's own context.
func A02_Dest() { succeeding(wHostDest+3*nd.Choice("api", 2), 4, 4) }

// A02_Same is a call in the caller's context.
func A02_Same() { succeeding(wHostSame+3*nd.Choice("api", 2), 4, 4) }

// A02_TransferExecute is a call made by a transfer.
func A02_TransferExecute() { succeeding(wExec, 4, 4) }

// sequence has A call B, then C or B again, each with an effect; B calls C.
func sequence(ways, effects int) {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	runs := 0
	w1 := nd.Choice("way1", ways)
	w2 := nd.Choice("way2", ways)
	w3 := nd.Choice("way3", ways)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.Effect(in, vmh.EffStore, "a1", vmh.As(vmh.Alice))
		nd.Assert(callOK(in, w1, vmh.Bob, big.NewInt(0), vmh.Zero32(), "g"), "the first call succeeds")
		m.Effect(in, vmh.EffLog, "a2", vmh.As(vmh.Alice))
		nd.Assert(callOK(in, w3, vmh.Carol, big.NewInt(0), vmh.Zero32(), "h"), "the second call succeeds")
		m.Effect(in, vmh.EffFinish, "a3", vmh.As(vmh.Alice))
	}
	bWho := whoAt(w1, vmh.Bob, vmh.Alice)
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		m.AnyEffect(in, effects, "b1", bWho)
		nd.Assert(callOK(in, w2, vmh.Carol, big.NewInt(0), vmh.Zero32(), "h"), "the inner call succeeds")
		m.Effect(in, vmh.EffFinish, "b2", bWho)
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		runs++
		if runs == 1 {
			m.AnyEffect(in, effects, "c1", whoAt(w2, vmh.Carol, bWho.Stor))
		} else {
			m.AnyEffect(in, effects, "c2", whoAt(w3, vmh.Carol, vmh.Alice))
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "a call whose nested calls succeed goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Assert(runs == 2, "every call runs its function once")
	nd.Reach("compared")
	m.Check(out)
}

// A02_Sequence is three calls on two levels.
func A02_Sequence() { sequence(2, 4) }

// A02_Sequence_Thorough uses every way to call.
func A02_Sequence_Thorough() { sequence(5, 4) }

// A02_Kinds uses deployments, built-in functions and erased storage.
func A02_Kinds() {
	e := vmh.NewEnv(vmh.Opt{})
	e.WithCreate()
	e.WithBuiltin()
	e.AccA.Put([]byte("k0"), []byte("a"))
	e.AccB.Put([]byte("k0"), []byte("b"))
	e.AccA.Nonce, e.AccB.Nonce = uint64(nd.U8("nonce of A")), 7
	m := vmh.NewModel(e.W)
	way := nd.Choice("way", 5)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.Effect(in, vmh.EffCreate+nd.Choice("before", 3), "before", vmh.As(vmh.Alice))
		nd.Assert(callOK(in, way, vmh.Bob, big.NewInt(0), vmh.Zero32(), "g"), "a nested call of a contract that succeeds is reported as a success")
		m.Effect(in, vmh.EffCreate+nd.Choice("after", 3), "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		m.Effect(in, vmh.EffCreate+nd.Choice("callee", 3), "callee", whoAt(way, vmh.Bob, vmh.Alice))
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "a call whose nested call succeeds goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}

// A02_Overwrite has caller, callee and the caller called again write one key.
func A02_Overwrite() {
	e := vmh.NewEnv(vmh.Opt{})
	k := []byte("k")
	if nd.Bool("set before") {
		e.AccA.Put(k, []byte("a"))
	}
	m := vmh.NewModel(e.W)
	way := nd.Choice("way", 5)
	again := nd.Bool("again")
	put := func(in *vmh.Inst, tag string, stor []byte) {
		v := nd.BytesUpTo(tag, 1)
		in.Store(k, v)
		m.Put(stor, k, v)
	}
	see := func(in *vmh.Inst, stor []byte) {
		got, ok := in.Load(k)
		nd.Assert(ok && bytes.Equal(got, m.Get(stor, k)), "a contract reads what was written last, whoever wrote it")
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		put(in, "before", vmh.Alice)
		nd.Assert(callOK(in, way, vmh.Bob, big.NewInt(0), vmh.Zero32(), "g"), "the nested call succeeds")
		see(in, vmh.Alice)
		if nd.Bool("write after") {
			put(in, "after", vmh.Alice)
			see(in, vmh.Alice)
		}
	}
	e.A.Funcs["h"] = func(in *vmh.Inst) {
		see(in, vmh.Alice)
		put(in, "again", vmh.Alice)
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		stor := whoAt(way, vmh.Bob, vmh.Alice).Stor
		see(in, stor)
		put(in, "callee", stor)
		if again {
			nd.Assert(callOK(in, wHostDest+3*nd.Choice("inner way", 2), vmh.Alice, big.NewInt(0), vmh.Zero32(), "h"), "the inner call succeeds")
			see(in, stor)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "a call whose nested call succeeds goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}

// A02_Creators has caller and callee deploy contracts in turns.
func A02_Creators() {
	e := vmh.NewEnv(vmh.Opt{})
	e.WithCreate()
	e.AccA.Nonce, e.AccB.Nonce = uint64(nd.U8("nonce of A")), uint64(nd.U8("nonce of B"))
	m := vmh.NewModel(e.W)
	way := nd.Choice("way", 5)
	again := nd.Bool("again")
	make := func(in *vmh.Inst, tag string, w vmh.Who) {
		if nd.Bool(tag + " deploys") {
			m.Effect(in, vmh.EffDeploy, tag, w)
		}
	}
	who := whoAt(way, vmh.Bob, vmh.Alice)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		make(in, "first", vmh.As(vmh.Alice))
		nd.Assert(callOK(in, way, vmh.Bob, big.NewInt(0), vmh.Zero32(), "g"), "a nested call succeeds")
		nd.Assert(callOK(in, way, vmh.Bob, big.NewInt(0), vmh.Zero32(), "h"), "a nested call succeeds")
		m.Effect(in, vmh.EffCreate, "last", vmh.As(vmh.Alice))
	}
	e.A.Funcs["x"] = func(in *vmh.Inst) { make(in, "reentered", vmh.As(vmh.Alice)) }
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		make(in, "callee", who)
		if again {
			nd.Assert(callOK(in, wHostDest, vmh.Alice, big.NewInt(0), vmh.Zero32(), "x"), "a nested call succeeds")
		}
	}
	e.B.Funcs["h"] = func(in *vmh.Inst) { make(in, "callee again", who) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "a call whose nested calls succeed goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}
