// Package nested: semantics of nested calls.
package nested

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

const gas = uint64(1) << 40
const childGas = uint64(1) << 30

// kinds of nested call a contract survives when the callee fails
const (
	kDest = iota
	kSame
	kExec
)

// callB makes a nested call that the caller survives, and tells whether it succeeded.
func callB(in *vmh.Inst, kind int, value *big.Int, value32 []byte, fn string) bool {
	switch kind {
	case kDest:
		_, err := in.HostDest(vmh.Bob, value, fn, childGas)
		return err == nil
	case kSame:
		return in.HostSame(vmh.Bob, value, fn, childGas) == nil
	}
	return in.Nested(vmh.TransferExec, int64(childGas), vmh.Bob, value32, fn) == 0
}

func whoB(kind int) vmh.Who {
	if kind == kSame {
		return vmh.Who{Self: vmh.Bob, Stor: vmh.Alice}
	}
	return vmh.As(vmh.Bob)
}

// failing runs A, which has an effect, calls B, which has effects and fails,
// and then has another effect.
func failing(kind, pre, effects int, deep bool) {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	fail := nd.Choice("failure", 4)
	scratch := &vmh.Model{}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.AnyEffect(in, pre, "before", vmh.As(vmh.Alice))
		scratch = m.Clone()
		v, b := vmh.Value("callValue")
		if scratch.Move(vmh.Alice, vmh.Bob, v) {
			nd.Reach("enough value")
		}
		ok := callB(in, kind, v, b, "g")
		nd.Assert(!ok, "the failure of a nested call is reported to the caller")
		nd.Assert(in.W.Host.Output().ReturnCode() == 0, "the failure of a nested call does not become the caller's")
		m.Effect(in, vmh.EffStore, "after", vmh.As(vmh.Alice))
		m.Effect(in, vmh.EffFinish, "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		nd.Reach("callee ran")
		for i := 0; i < effects; i++ {
			scratch.AnyEffect(in, 4, "callee", whoB(kind))
		}
		if deep {
			in.HostDest(vmh.Carol, big.NewInt(0), "h", 1<<20)
		}
		in.FailWith(fail)
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		scratch.AnyEffect(in, 4, "grandchild", vmh.As(vmh.Carol))
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "the caller goes on after the failure of a nested call")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
	used := uint64(0)
	for _, a := range out.OutputAccounts {
		used += a.GasUsed
	}
	nd.Assert(used+out.GasRemaining == gas, "the gas of a failed nested call is accounted for")
}

// A01_Undone has B deploy, call a built-in function and erase storage, and fail.
func A01_Undone() {
	e := vmh.NewEnv(vmh.Opt{})
	e.WithCreate()
	e.WithBuiltin()
	e.AccA.Put([]byte("k0"), []byte("a"))
	e.AccB.Put([]byte("k0"), []byte("b"))
	m := vmh.NewModel(e.W)
	kind := nd.Choice("call", 3)
	fail := nd.Choice("failure", 2)
	eff := vmh.EffCreate + nd.Choice("effect of callee", 3)
	first, last := vmh.EffBuiltin, eff
	if nd.Tier() > 0 {
		fail = nd.Choice("failure", 3)
		first = vmh.EffCreate + nd.Choice("effect before", 3)
		last = vmh.EffCreate + nd.Choice("effect after", 3)
	}
	again := nd.Bool("again")
	var scratch *vmh.Model
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.Effect(in, first, "before", vmh.As(vmh.Alice))
		scratch = m.Clone()
		nd.Assert(!callB(in, kind, big.NewInt(0), vmh.Zero32(), "g"), "the failure of a nested call is reported to the caller")
		if again {
			nd.Assert(!callB(in, kind, big.NewInt(0), vmh.Zero32(), "g"), "a second failure is reported as well")
		}
		m.Effect(in, last, "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		s := scratch.Clone()
		s.Effect(in, eff, "callee", whoB(kind))
		in.FailWith(fail)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller goes on after the failure of a nested call")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}

// A01_Reentrant has B call A again, which changes its own storage and moves
// value, before B fails.
func A01_Reentrant() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Put([]byte("k0"), []byte("a"))
	m := vmh.NewModel(e.W)
	kind := nd.Choice("call", 3)
	inner, fail := 0, 0
	if nd.Tier() > 0 {
		inner = nd.Choice("inner", 5)
		fail = nd.Choice("failure", 2)
	} else {
		inner = nd.Choice("inner", 3)
	}
	ran := false
	var scratch *vmh.Model
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.Effect(in, vmh.EffStore, "before", vmh.As(vmh.Alice))
		scratch = m.Clone()
		nd.Assert(!callB(in, kind, big.NewInt(0), vmh.Zero32(), "g"), "the failure of a nested call is reported to the caller")
		k := []byte("k0")
		got, ok := in.Load(k)
		nd.Assert(ok && bytes.Equal(got, m.Get(vmh.Alice, k)), "after a failed call the caller reads its storage as before")
		m.Effect(in, vmh.EffFinish, "after", vmh.As(vmh.Alice))
	}
	who := vmh.As(vmh.Alice)
	if inner == wHostSame || inner == wSame {
		who.Stor = whoB(kind).Stor
	}
	e.A.Funcs["h"] = func(in *vmh.Inst) {
		ran = true
		scratch.AnyEffect(in, 2+2*nd.Tier(), "inner", who)
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		nd.Assert(callOK(in, inner, vmh.Alice, big.NewInt(0), vmh.Zero32(), "h"), "a contract can be called again")
		in.FailWith(fail)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller goes on after the failure of a nested call")
	if out.ReturnCode != 0 {
		return
	}
	nd.Assert(ran, "the inner call ran")
	nd.Reach("compared")
	m.Check(out)
}

// A01_FailedDest is a failing call in the callee's own context.
func A01_FailedDest() { failing(kDest, 5, 1+nd.Tier(), false) }

// A01_FailedSame is a failing call in the caller's context.
func A01_FailedSame() { failing(kSame, 5, 1+nd.Tier(), false) }

// A01_FailedTransferExecute is a failing call made by a transfer.
func A01_FailedTransferExecute() { failing(kExec, 5, 1+nd.Tier(), false) }

// A01_FailedDeep fails after a successful call of its own.
func A01_FailedDeep() { failing(kDest, 2, 1, true) }
