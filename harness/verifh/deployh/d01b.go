package deployh

import (
	"encoding/hex"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// ran notes which functions of B ran.
type ran struct{ init, call, eth, goes int }

func spied() (*vmh.Env, *ran) {
	e := vmh.NewEnv(vmh.Opt{})
	r := &ran{}
	e.B.Funcs["init"] = func(in *vmh.Inst) { r.init++ }
	e.B.Funcs["solidity.ctor"] = func(in *vmh.Inst) { r.eth++ }
	e.B.Funcs["callBack"] = func(in *vmh.Inst) { r.call++ }
	e.B.Funcs["goes"] = func(in *vmh.Inst) { r.goes++; in.Finish([]byte{1}) }
	return e, r
}

func anyName() string {
	switch nd.Choice("name", 3) {
	case 0:
		return string(nd.Bytes("name", nd.Choice("length", 5)))
	case 1:
		return string(nd.Bytes("name", 8))
	}
	return string(nd.Bytes("name", 13))
}

// D01_CallDirect asks for any function.
func D01_CallDirect() {
	e, r := spied()
	fn := anyName()
	in := vmh.Input(vmh.Bob, fn, gas)
	in.CallType = []vmcommon.CallType{vmcommon.DirectCall, vmcommon.AsynchronousCall, vmcommon.ESDTTransferAndExecute, vmcommon.CallType(4), vmcommon.CallType(77)}[nd.Choice("type", 5)]
	out, err := e.Call(in)
	vmh.NoCrash(out, err)
	nd.Assert(r.init+r.eth == 0, "initialisation cannot be called")
	nd.Assert(r.call == 0, "the callback cannot be called")
	if fn == "goes" {
		nd.Reach("called")
		nd.Assert(r.goes == 1 && out.ReturnCode == vmcommon.Ok, "exactly the function asked for runs")
	} else {
		nd.Reach("refused")
		nd.Assert(r.goes == 0, "no other function runs")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a call of a function that cannot be called fails")
	}
}

// D01_CallBackDirect makes an asynchronous callback with any function name.
func D01_CallBackDirect() {
	e, r := spied()
	fn := anyName()
	in := vmh.Input(vmh.Bob, fn, gas, []byte{0})
	in.CallType = vmcommon.AsynchronousCallBack
	out, err := e.Call(in)
	vmh.NoCrash(out, err)
	nd.Assert(r.init+r.eth == 0, "initialisation cannot be called")
	if fn == "callBack" {
		nd.Reach("callback")
		nd.Assert(r.call == 1 && r.goes == 0, "an answer runs exactly the callback")
	} else {
		nd.Assert(r.call == 0, "the callback does not run instead of another function")
	}
}

func named() string {
	return []string{"init", "solidity.ctor", "callBack", "goes", "gone", "INIT"}[nd.Choice("function", 6)]
}

// D01_CallNested asks for any function from another contract.
func D01_CallNested() {
	e, r := spied()
	kind := nd.Choice("kind", 7)
	fn := ""
	switch kind {
	case vmh.Dest, vmh.TransferExec:
		fn = anyName()
	case 6:
		fn = named()
	default:
		if nd.Bool("short") {
			fn = string(nd.Bytes("name", nd.Choice("length", 3)))
		} else {
			fn = named()
		}
	}
	rc := int32(-1)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		if kind == 6 {
			in.Async(vmh.Bob, vmh.Zero32(), []byte(fn+"@"+hex.EncodeToString([]byte{1})))
			return
		}
		rc = in.Nested(kind, part, vmh.Bob, vmh.Zero32(), fn)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(r.init+r.eth == 0, "initialisation cannot be called by a contract")
	if fn == "callBack" {
		nd.Assert(r.call == 0, "the callback cannot be called by a contract")
		return
	}
	nd.Assert(r.call == 0, "the callback does not run instead of another function")
	if fn == "goes" {
		nd.Reach("called")
		nd.Assert(r.goes == 1, "exactly the function asked for runs")
		nd.Assert(rc == 0 || kind == 6, "a nested call that succeeds is reported as a success")
	} else {
		nd.Reach("refused")
		nd.Assert(r.goes == 0, "no other function runs")
		nd.Assert(rc != 0, "a nested call of a function that cannot be called is not a success")
	}
}

// D01_InitOnce counts how often initialisation runs when code is installed
// twice and then called.
func D01_InitOnce() {
	e, c, inits := newEnv(vmh.Opt{})
	calls := 0
	c.Funcs["go"] = func(in *vmh.Inst) { calls++ }
	if nd.Bool("no init") {
		delete(c.Funcs, "init")
	}
	route := nd.Choice("route", nRoutes)
	if _, has := c.Funcs["init"]; !has && (route == rNested || route == rNestedFrom) {
		return // a contract that deploys needs code with an init function
	}
	a, ok := install(e, route)
	nd.Assert(a && ok, "valid code is deployed")
	first := *inits
	_, has := c.Funcs["init"]
	nd.Assert(has && first == 1 || !has && first == 0, "initialisation runs exactly once at deployment")
	e.AccB.Code = newCode
	out, err := e.Call(vmh.Input(vmh.Bob, "go", gas))
	vmh.NoCrash(out, err)
	nd.Assert(calls == 1 && *inits == first, "initialisation does not run again with a call")
}
