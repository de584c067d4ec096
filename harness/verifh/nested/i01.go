package nested

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// view is what a contract can observe of its own execution.
type view struct {
	addr, caller, orig, cur []byte
	value                   *big.Int
	args                    [][]byte
	fn                      string
	gas, locked             uint64
	ctype                   vmcommon.CallType
	tokens                  []vmcommon.ESDTTransfer
	ro                      bool
	inst                    interface{}
	h0, h1                  *big.Int
	mem                     []byte
	async                   int
	asyncCalls              int
	onStack                 bool
	depth                   uint64
}

func look(in *vmh.Inst) *view {
	h := in.W.Host
	r := h.Runtime()
	i := r.GetVMInput()
	v := &view{
		addr: append([]byte{}, r.GetSCAddress()...), caller: append([]byte{}, i.CallerAddr...),
		orig: append([]byte{}, r.GetOriginalTxHash()...), cur: append([]byte{}, r.GetCurrentTxHash()...),
		value: big.NewInt(0).Set(i.CallValue), fn: r.Function(), gas: i.GasProvided, locked: i.GasLocked,
		ctype: i.CallType, ro: r.ReadOnly(), inst: r.GetInstance(),
		h0: big.NewInt(0).Set(h.BigInt().GetOne(0)), h1: big.NewInt(0).Set(h.BigInt().GetOne(1)),
		mem: append([]byte{}, in.Mem.B...), depth: r.RunningInstancesCount(),
	}
	for _, a := range r.Arguments() {
		v.args = append(v.args, append([]byte{}, a...))
	}
	for _, t := range i.ESDTTransfers {
		v.tokens = append(v.tokens, vmcommon.ESDTTransfer{ESDTValue: big.NewInt(0).Set(t.ESDTValue), ESDTTokenName: append([]byte{}, t.ESDTTokenName...), ESDTTokenType: t.ESDTTokenType, ESDTTokenNonce: t.ESDTTokenNonce})
	}
	info := r.GetAsyncContextInfo()
	v.async = len(info.AsyncContextMap)
	for _, c := range info.AsyncContextMap {
		v.asyncCalls += len(c.AsyncCalls)
	}
	return v
}

func (v *view) same(w *view, handles, mem bool) {
	nd.Assert(bytes.Equal(v.addr, w.addr), "the caller keeps its address after a nested call")
	nd.Assert(bytes.Equal(v.caller, w.caller), "the caller keeps its own caller after a nested call")
	nd.Assert(bytes.Equal(v.orig, w.orig) && bytes.Equal(v.cur, w.cur), "the caller keeps its transaction hashes after a nested call")
	nd.Assert(v.value.Cmp(w.value) == 0, "the caller keeps its call value after a nested call")
	nd.Assert(v.fn == w.fn, "the caller keeps its function name after a nested call")
	nd.Assert(v.gas == w.gas && v.locked == w.locked, "the caller keeps the gas it was provided after a nested call")
	nd.Assert(v.ctype == w.ctype, "the caller keeps its call type after a nested call")
	nd.Assert(v.ro == w.ro, "the caller keeps its read-only mode after a nested call")
	nd.Assert(v.inst == w.inst, "the caller's own instance runs on after a nested call")
	nd.Assert(v.depth == w.depth, "the call depth is the same after a nested call")
	nd.Assert(v.async == w.async && v.asyncCalls == w.asyncCalls, "the caller keeps its asynchronous calls after a nested call")
	nd.Assert(len(v.args) == len(w.args), "the caller keeps its arguments after a nested call")
	if len(v.args) == len(w.args) {
		for i := range v.args {
			nd.Assert(bytes.Equal(v.args[i], w.args[i]), "the caller keeps the values of its arguments after a nested call")
		}
	}
	nd.Assert(len(v.tokens) == len(w.tokens), "the caller keeps its token transfers after a nested call")
	if len(v.tokens) == len(w.tokens) {
		for i := range v.tokens {
			nd.Assert(bytes.Equal(v.tokens[i].ESDTTokenName, w.tokens[i].ESDTTokenName) && v.tokens[i].ESDTValue.Cmp(w.tokens[i].ESDTValue) == 0 &&
				v.tokens[i].ESDTTokenNonce == w.tokens[i].ESDTTokenNonce && v.tokens[i].ESDTTokenType == w.tokens[i].ESDTTokenType, "the caller keeps its token transfers unchanged after a nested call")
		}
	}
	if handles {
		nd.Assert(v.h0.Cmp(w.h0) == 0 && v.h1.Cmp(w.h1) == 0, "the caller keeps its big integers after a nested call")
	}
	if mem {
		nd.Assert(bytes.Equal(v.mem, w.mem), "the caller keeps its memory after a nested call")
	}
}

// disturb makes a callee use every part of the context.
func disturb(in *vmh.Inst) {
	in.Do(func() {
		h := in.W.Host
		bi := h.BigInt()
		bi.GetOne(0).SetInt64(77)
		n := bi.Put(5)
		bi.GetOne(n).SetInt64(9)
		for i := range in.Mem.B {
			in.Mem.B[i] = 0xee
		}
		r := h.Runtime()
		_ = r.AddAsyncContextCall([]byte("callee"), &arwen.AsyncGeneratedCall{Status: arwen.AsyncCallPending, Destination: vmh.Far, ValueBytes: []byte{0}})
		for _, a := range r.Arguments() {
			for i := range a {
				a[i] = 0xdd
			}
		}
		r.GetVMInput().CallValue.SetInt64(31337)
	})
}

// A failing callee leaves nothing, a successful one only its results.
func isolated(way int, fails, deep bool) {
	e := vmh.NewEnv(vmh.Opt{})
	v0 := nd.BigSigned("handle0", 2)
	v1 := nd.BigSigned("handle1", 2)
	arg := nd.Bytes("arg", 2)
	mem := nd.Bytes("mem", 2)
	cv := nd.U64("value")
	fail := 0
	if fails {
		fail = nd.Choice("failure", 4)
	}
	e.AccU.Balance = new(big.Int).SetUint64(^uint64(0))
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		bi := in.W.Host.BigInt()
		bi.GetOne(0).Set(v0)
		bi.GetOne(1).Set(v1)
		in.Put(200, mem)
		_ = in.W.Host.Runtime().AddAsyncContextCall([]byte("caller"), &arwen.AsyncGeneratedCall{Status: arwen.AsyncCallPending, Destination: vmh.Bob, Data: []byte("nope"), ValueBytes: []byte{0}})
		before := look(in)
		shared := false
		hostCall := true
		ok := false
		switch way {
		case 0:
			_, err := in.HostDest(vmh.Bob, big.NewInt(1), "g", childGas, []byte{1, 2})
			ok = err == nil
		case 1:
			ok = in.HostSame(vmh.Bob, big.NewInt(1), "g", childGas, []byte{1, 2}) == nil
			shared = ok
		default:
			hostCall = false
			kind := []int{vmh.TransferExec, vmh.Dest, vmh.DestByCaller, vmh.Same, vmh.Delegate, vmh.ReadOnly}[way-2]
			ok = in.Nested(kind, int64(childGas), vmh.Bob, vmh.Zero32(), "g", []byte{1, 2}) == 0
			shared = ok && (kind == vmh.Same || kind == vmh.Delegate || kind == vmh.ReadOnly)
		}
		nd.Assert(ok == !fails, "the outcome of a nested call is reported to the caller")
		after := look(in)
		before.same(after, !shared, hostCall)
		if shared {
			nd.Assert(before.h1.Cmp(after.h1) == 0, "a big integer the callee did not touch is unchanged")
		}
		nd.Assert(bytes.Equal(in.Mem.B[200:202], mem), "the caller's memory is its own")
		id := in.W.Host.BigInt().Put(1)
		nd.Assert(id != 0 && id != 1, "new handles do not collide with the caller's")
		nd.Reach("compared")
		// keep the asynchronous call of the caller from running
		info := in.W.Host.Runtime().GetAsyncContextInfo()
		for k := range info.AsyncContextMap {
			delete(info.AsyncContextMap, k)
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		nd.Reach("callee ran")
		if deep {
			_, err := in.HostDest(vmh.Carol, big.NewInt(0), "h", 1<<20, []byte{4})
			nd.Assert(err == nil, "the inner call succeeds")
			nd.Assert(in.HostSame(vmh.Carol, big.NewInt(0), "h", 1<<20, []byte{4}) == nil, "the inner call succeeds")
		}
		disturb(in)
		info := in.W.Host.Runtime().GetAsyncContextInfo()
		delete(info.AsyncContextMap, "callee")
		if fails {
			in.FailWith(fail)
		}
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		disturb(in)
		info := in.W.Host.Runtime().GetAsyncContextInfo()
		delete(info.AsyncContextMap, "callee")
	}
	input := vmh.Input(vmh.Alice, "f", gas, arg, []byte("second"))
	input.CallValue = new(big.Int).SetUint64(cv)
	input.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTValue: big.NewInt(12), ESDTTokenName: []byte("TOK"), ESDTTokenNonce: 4, ESDTTokenType: 1}}
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "the caller goes on after a nested call")
}

// I01_Success is a successful nested call of every kind.
func I01_Success() { isolated(nd.Choice("way", 8), false, false) }

// I01_Failure is a failing nested call of the kinds a caller survives.
func I01_Failure() { isolated(nd.Choice("way", 3), true, false) }

// I01_Deep has the callee call others.
func I01_Deep() { isolated(nd.Choice("way", 8), false, true) }

// I01_DeepFailure has the callee call others and fail.
func I01_DeepFailure() { isolated(nd.Choice("way", 3), true, true) }

// I01_Own is what a callee observes of its own context: only its own.
func I01_Own() {
	e := vmh.NewEnv(vmh.Opt{})
	way := nd.Choice("way", 6)
	arg := nd.Bytes("arg", 2)
	carg := nd.Bytes("calleeArg", 1)
	v, vb := vmh.Value("calleeValue")
	nd.Assume(v.Cmp(big.NewInt(1000)) <= 0)
	kinds := []int{vmh.TransferExec, vmh.Dest, vmh.DestByCaller, vmh.Same, vmh.Delegate, vmh.ReadOnly}
	kind := kinds[way]
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.W.Host.BigInt().GetOne(0).SetInt64(5)
		in.Finish([]byte("caller's"))
		in.Nested(kind, int64(childGas), vmh.Bob, vb, "g", carg)
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		w := look(in)
		nd.Reach("callee ran")
		who := vmh.Alice
		if kind == vmh.DestByCaller {
			who = vmh.User
		}
		nd.Assert(bytes.Equal(w.addr, vmh.Bob), "a callee runs under its own address")
		nd.Assert(bytes.Equal(w.caller, who), "a callee sees who called it")
		if kind == vmh.Delegate || kind == vmh.ReadOnly {
			nd.Assert(w.value.Sign() == 0, "a call without value has none")
		} else {
			nd.Assert(w.value.Cmp(v) == 0, "a callee sees the value it was given")
		}
		nd.Assert(len(w.args) == 1 && bytes.Equal(w.args[0], carg), "a callee sees its own arguments")
		nd.Assert(w.fn == "g", "a callee sees its own function")
		nd.Assert(w.gas == childGas, "a callee sees the gas it was given")
		nd.Assert(w.ro == (kind == vmh.ReadOnly), "a callee sees its own read-only mode")
		nd.Assert(bytes.Equal(w.orig, []byte("originalTx")) && bytes.Equal(w.cur, []byte("currentTx")), "a callee sees the hashes of the transaction")
		dest := kind == vmh.TransferExec || kind == vmh.Dest || kind == vmh.DestByCaller
		nd.Assert(len(w.tokens) == 0, "a callee does not see the tokens its caller was sent")
		if dest {
			nd.Assert(w.h0.Sign() == 0, "a callee starts with no big integers")
			nd.Assert(elrondapi.XGetNumReturnData(in.Ctx()) == 0, "a callee starts without return data")
		}
		in.Finish([]byte("callee's"))
	}
	input := vmh.Input(vmh.Alice, "f", gas, arg)
	input.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTValue: big.NewInt(12), ESDTTokenName: []byte("TOK"), ESDTTokenNonce: 4, ESDTTokenType: 1}}
	if kind == vmh.DestByCaller {
		e.AccU.Balance = big.NewInt(5000)
	}
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller goes on after a nested call")
	nd.Assert(len(out.ReturnData) == 2, "both results are returned")
}

// I01_Create deploys a contract in the middle of an execution.
func I01_Create() {
	e := vmh.NewEnv(vmh.Opt{})
	code := []byte("NNNN")
	fails := nd.Bool("fails")
	fail := nd.Choice("failure", 4)
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: code, Funcs: map[string]func(*vmh.Inst){
		"init": func(in *vmh.Inst) {
			nd.Reach("init ran")
			disturb(in)
			delete(in.W.Host.Runtime().GetAsyncContextInfo().AsyncContextMap, "callee")
			if fails {
				in.FailWith(fail)
			}
		}}})
	v0 := nd.BigSigned("handle0", 2)
	mem := nd.Bytes("mem", 2)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		h := in.W.Host
		h.BigInt().GetOne(0).Set(v0)
		in.Put(200, mem)
		before := look(in)
		addr, err := h.CreateNewContract(&vmcommon.ContractCreateInput{
			VMInput:      vmcommon.VMInput{CallerAddr: vmh.Alice, Arguments: [][]byte{{1}}, CallValue: big.NewInt(1), GasProvided: childGas},
			ContractCode: code, ContractCodeMetadata: []byte{1, 0},
		})
		nd.Assert((err == nil) == !fails, "the outcome of a deployment is reported to the creator")
		nd.Assert((addr == nil) == fails, "a failed deployment has no address")
		before.same(look(in), true, true)
		nd.Reach("compared")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas, []byte{9}))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the creator goes on after a deployment")
}
