package outputh

import (
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// The ways a contract function can end.
const (
	endOK = iota
	endSignal
	endTrap
	endGas
	endTransfer
	endMemory
	endDivide
	endReserved
	endArgument
	endCallee
	endInt64
	endGasLast
	ends
)

var endCodes = []vmcommon.ReturnCode{vmcommon.Ok, vmcommon.UserError, vmcommon.ExecutionFailed, vmcommon.OutOfGas,
	vmcommon.ExecutionFailed, vmcommon.ExecutionFailed, vmcommon.ExecutionFailed, vmcommon.ExecutionFailed,
	vmcommon.ExecutionFailed, vmcommon.ExecutionFailed, vmcommon.ExecutionFailed, vmcommon.OutOfGas}

// end finishes the contract in one way; msg is what it signals.
func end(in *vmh.Inst, way int, msg []byte) {
	c := in.Ctx()
	h := in.W.Host
	switch way {
	case endSignal:
		in.Signal(msg)
	case endTrap:
		in.Trap()
	case endGas:
		in.Burn(^uint64(0))
		in.Do(func() {})
	case endGasLast:
		// the last instruction is the one that exceeds the gas
		in.Do(func() { h.Metering().UseGas(h.Metering().GasLeft() + 1 + uint64(nd.U8("excess"))) })
	case endTransfer:
		b := make([]byte, 32)
		b[0] = 1
		in.Transfer(vmh.Carol, b, nil)
	case endMemory:
		in.Do(func() { elrondapi.XReturnData(c, -1-int32(nd.U8("offset")), 1) })
	case endDivide:
		in.Do(func() { elrondapi.XBigIntTDiv(c, 0, 1, 2) })
	case endReserved:
		in.Store([]byte(vmh.ProtectedPrefix), []byte{1})
	case endArgument:
		in.Do(func() { elrondapi.XSmallIntGetUnsignedArgument(c, 77) })
	case endCallee:
		in.Nested(vmh.Dest, 1<<20, vmh.Carol, vmh.Zero32(), "fails")
	case endInt64:
		in.Do(func() {
			h.BigInt().GetOne(0).SetBytes([]byte{1, 0, 0, 0, 0, 0, 0, 0, 0})
			elrondapi.XBigIntGetInt64(c, 0)
			h.BigInt().GetOne(1).SetInt64(-5)
			elrondapi.XBigIntAnd(c, 0, 0, 1)
		})
	}
}

func setup(e *vmh.Env) {
	how := nd.Choice("calleeEnd", 2)
	e.C.Funcs["fails"] = func(in *vmh.Inst) { end(in, endSignal+how, []byte("callee")) }
}

func code(out *vmcommon.VMOutput, want vmcommon.ReturnCode, what string) {
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == want, what)
	if want == vmcommon.Ok {
		nd.Assert(out.ReturnMessage == "", "a success has no message")
		return
	}
	vmh.CheckFailed(out)
	nd.Assert(out.ReturnMessage != "", "a failure has a message")
}

// E01_Ends ends a call in every way, after effects.
func E01_Ends() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	way := nd.Choice("end", ends)
	msg := nd.Bytes("message", 2)
	setup(e)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.AnyEffect(in, 4, "1", vmh.As(vmh.Alice))
		end(in, way, msg)
		if way != endOK && way != endGasLast {
			nd.Assert(in.Stopped(), "a contract that failed runs no further")
		}
	}
	input := vmh.Input(vmh.Alice, "f", gas)
	input.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	m.Receive(vmh.Alice, input.CallValue)
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	code(out, endCodes[way], "each way a contract ends has its own code")
	if way == endOK {
		m.Check(out)
		nd.Reach("success")
	}
	if way == endSignal {
		nd.Assert(out.ReturnMessage == string(msg), "a user error carries the message of the contract")
	}
}

// E01_Nested ends a nested call in every way; its own output says so.
func E01_Nested() {
	e := vmh.NewEnv(vmh.Opt{})
	way := nd.Choice("end", ends)
	setup(e)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		out, err := in.HostDest(vmh.Bob, big.NewInt(0), "g", childGas)
		nd.Assert((err == nil) == (way == endOK), "a nested call reports success exactly when the callee succeeded")
		nd.Assert(out != nil, "a nested call has an output")
		if way == endGasLast {
			nd.Reach("overrun at the end")
			nd.Assert(out.ReturnCode == vmcommon.OutOfGas || out.ReturnCode == vmcommon.ExecutionFailed, "a callee that overruns its gas fails")
			nd.Assert(out.ReturnCode == vmcommon.OutOfGas, "a callee that overruns its gas with its last operation is out of gas")
			return
		}
		nd.Assert(out.ReturnCode == endCodes[way], "each way a callee ends has its own code")
		if way != endOK {
			nd.Assert(out.GasRemaining == 0, "a failed callee returns no gas")
			nd.Assert(len(out.OutputAccounts) == 0 && len(out.ReturnData) == 0 && len(out.Logs) == 0, "a failed callee has no effects")
		}
		if way == endSignal {
			nd.Assert(out.ReturnMessage == "stop", "a user error of a callee carries its message")
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Store([]byte("k"), []byte{1})
		in.Finish([]byte{2})
		end(in, way, []byte("stop"))
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	code(out, vmcommon.Ok, "the caller goes on after a nested call")
}

// E01_Refused are the calls that never start.
func E01_Refused() {
	e := vmh.NewEnv(vmh.Opt{})
	e.W.Add(&vmh.Account{Addr: vmh.Addr(5, 'e')})
	e.W.Add(&vmh.Account{Addr: vmh.Addr(5, 'x'), Code: []byte("bad"), CodeHash: []byte("h")})
	for _, f := range []string{"init", "solidity.ctor", "callBack"} {
		e.A.Funcs[f] = func(in *vmh.Inst) { nd.Fail("init and callBack cannot be called directly") }
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) { nd.Reach("ran") }
	e.A.Funcs["ff"] = e.A.Funcs["f"]
	cases := []struct {
		to   []byte
		fn   string
		want vmcommon.ReturnCode
	}{
		{vmh.Alice, "f", vmcommon.Ok},
		{vmh.Alice, "g", vmcommon.FunctionNotFound},
		{vmh.Alice, "", vmcommon.FunctionNotFound},
		{vmh.Alice, "init", vmcommon.UserError},
		{vmh.Alice, "solidity.ctor", vmcommon.UserError},
		{vmh.Alice, "callBack", vmcommon.UserError},
		{vmh.New, "f", vmcommon.ContractNotFound},
		{vmh.Addr(5, 'e'), "f", vmcommon.ContractNotFound},
		{vmh.Addr(5, 'x'), "f", vmcommon.ContractInvalid},
	}
	c := cases[nd.Choice("case", len(cases))]
	input := vmh.Input(c.to, c.fn, gas, nd.Bytes("arg", 1))
	input.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	code(out, c.want, "each refused call has its own code")
}

// E01_Start gives every amount of gas to a call.
func E01_Start() {
	opt := vmh.Opt{}
	if nd.Bool("aot") {
		opt.AOT = 1
	}
	s := vmh.NewSched()
	get := s.Sym(vmh.Base, "GetCode")
	per := s.Sym(vmh.Base, "AoTPreparePerByte")
	if opt.AOT == 1 {
		per = s.Sym(vmh.Base, "CompilePerByte")
	}
	opt.GasMap = s.M
	e := vmh.NewEnv(opt)
	g := nd.U64("gas")
	nd.Assume(g < 1<<40)
	ran := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		ran = true
		in.Burn(2)
		in.Do(func() {})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", g))
	vmh.NoCrash(out, err)
	need := 4 * per
	if opt.AOT == 0 {
		need += get
	}
	if g < get {
		need = get
	}
	if g >= need+2 {
		code(out, vmcommon.Ok, "a call with enough gas succeeds")
		nd.Assert(out.GasRemaining == g-need-2, "the gas that is left is returned")
		nd.Reach("enough")
		return
	}
	if g < need {
		nd.Assert(!ran, "a call that cannot pay for its code does not run")
	}
	nd.Reach("not enough")
	code(out, vmcommon.OutOfGas, "a call without enough gas ends out of gas")
}

// deployment cases shared by creation and upgrade.
func deployment(e *vmh.Env, run func(code []byte, g uint64) (*vmcommon.VMOutput, error)) {
	way := nd.Choice("end", ends)
	kind := nd.Choice("code", 5)
	setup(e)
	msg := nd.Bytes("message", 1)
	ran := 0
	good := &vmh.Contract{Code: []byte("GOOD"), Funcs: map[string]func(*vmh.Inst){"init": func(in *vmh.Inst) {
		ran++
		in.Store([]byte("k"), []byte{1})
		in.Finish([]byte{2})
		end(in, way, msg)
	}, "f": func(*vmh.Inst) { nd.Fail("a deployment runs only the init function") }}}
	noInit := &vmh.Contract{Code: []byte("NOIN"), Funcs: map[string]func(*vmh.Inst){"f": func(*vmh.Inst) { nd.Fail("a deployment runs only the init function") }}}
	noMem := &vmh.Contract{Code: []byte("NOME"), NoMem: true, Funcs: map[string]func(*vmh.Inst){"init": func(*vmh.Inst) { nd.Fail("invalid code does not run") }}}
	e.W.Contracts = append(e.W.Contracts, good, noInit, noMem)
	var out *vmcommon.VMOutput
	var err error
	want := vmcommon.Ok
	switch kind {
	case 0:
		out, err = run(good.Code, gas)
		want = endCodes[way]
		nd.Assert(ran == 1, "a deployment runs the init function once")
		nd.Reach("good code")
	case 1:
		out, err = run(noInit.Code, gas)
	case 2:
		out, err = run(noMem.Code, gas)
		want = vmcommon.ContractInvalid
	case 3:
		out, err = run([]byte("nonsense"), gas)
		want = vmcommon.ContractInvalid
	case 4:
		g := nd.U64("gas")
		nd.Assume(g < 5)
		out, err = run(good.Code, g)
		want = vmcommon.OutOfGas
		nd.Assert(ran == 0, "a deployment that cannot pay for its code does not run")
	}
	vmh.NoCrash(out, err)
	code(out, want, "each way a deployment ends has its own code")
}

// E01_Deploy ends a deployment in every way.
func E01_Deploy() {
	e := vmh.NewEnv(vmh.Opt{})
	deployment(e, func(code []byte, g uint64) (*vmcommon.VMOutput, error) {
		return e.H.RunSmartContractCreate(&vmcommon.ContractCreateInput{
			VMInput:      vmcommon.VMInput{CallerAddr: vmh.User, CallValue: big.NewInt(0), GasProvided: g},
			ContractCode: code, ContractCodeMetadata: []byte{1, 0},
		})
	})
}

// E01_Upgrade ends an upgrade in every way.
func E01_Upgrade() {
	e := vmh.NewEnv(vmh.Opt{})
	deployment(e, func(code []byte, g uint64) (*vmcommon.VMOutput, error) {
		return e.Call(vmh.Input(vmh.Alice, "upgradeContract", g, code, []byte{1, 0}))
	})
}

// E01_UpgradeArguments leaves arguments out.
func E01_UpgradeArguments() {
	e := vmh.NewEnv(vmh.Opt{})
	args := [][]byte{[]byte("GOOD")}
	if nd.Bool("none") {
		args = nil
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "upgradeContract", gas, args...))
	vmh.NoCrash(out, err)
	code(out, vmcommon.UpgradeFailed, "an upgrade without code and metadata is refused")
}
