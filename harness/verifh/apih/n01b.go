package apih

import (
	"math/big"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// serves asserts that the host answers the input and the next one.
func serves(e *vmh.Env, what string, call func() (*vmcommon.VMOutput, error)) *vmcommon.VMOutput {
	out, err := call()
	if err != nil || out == nil {
		nd.Fail("the host answers without crashing: " + what)
		return nil
	}
	next, err := e.Call(vmh.Input(vmh.Alice, "again", 1<<40))
	if err != nil || next == nil {
		nd.Fail("the host serves the next transaction after: " + what)
		return nil
	}
	nd.Assert(next.ReturnCode == vmcommon.Ok && len(next.ReturnData) == 1, "the next transaction gets its normal result after: "+what)
	return out
}

// N01_Calls runs inputs of every shape.
func N01_Calls() {
	e := apiEnv()
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Finish([]byte{1})
		if nd.Bool("fails") {
			in.Trap()
		}
	}
	fns := []string{"f", "", "init", "callBack", "missing", "upgradeContract", "ESDTTransfer", "ESDTNFTTransfer", "SaveKeyValue", "internalVMErrors"}
	fn := fns[nd.Choice("function", len(fns))]
	tos := [][]byte{vmh.Alice, vmh.User, vmh.Far, vmh.New, nil, {1}}
	to := tos[nd.Choice("to", len(tos))]
	var args [][]byte
	for i := nd.Choice("args", 2+2*nd.Tier()); i > 0; i-- {
		args = append(args, nd.Bytes("arg", i-1))
	}
	in := vmh.Input(to, fn, nd.U64("gas"), args...)
	in.CallType = vmcommon.CallType(nd.Choice("type", 5))
	in.ReturnCallAfterError = nd.Bool("after error")
	in.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	if nd.Bool("token") {
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte("tok"), ESDTValue: big.NewInt(3)}}
	}
	out := serves(e, "any input", func() (*vmcommon.VMOutput, error) { return e.Call(in) })
	if out != nil {
		if out.ReturnCode == vmcommon.Ok {
			nd.Reach("ok")
		} else {
			nd.Reach("failed")
		}
	}
}

// N01_Creates runs deployments of every shape.
func N01_Creates() {
	e := apiEnv()
	e.W.NewAddr = vmh.New
	e.A.Funcs["init"] = func(in *vmh.Inst) { in.Finish([]byte{1}) }
	codes := [][]byte{nil, {}, {0}, []byte("BBBB"), []byte("A")}
	in := &vmcommon.ContractCreateInput{ContractCode: codes[nd.Choice("code", len(codes))]}
	in.ContractCodeMetadata = nd.Bytes("meta", nd.Choice("meta", 4))
	in.CallerAddr = [][]byte{vmh.User, nil, vmh.Far}[nd.Choice("caller", 3)]
	in.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	in.GasProvided = nd.U64("gas")
	for i := nd.Choice("args", 3); i > 0; i-- {
		in.Arguments = append(in.Arguments, nd.Bytes("arg", i-1))
	}
	out := serves(e, "any deployment", func() (*vmcommon.VMOutput, error) { return e.H.RunSmartContractCreate(in) })
	if out != nil {
		if out.ReturnCode == vmcommon.Ok {
			nd.Reach("ok")
		} else {
			nd.Reach("failed")
		}
	}
}

// N01_Promises makes calls with createAsyncCall to every kind of destination.
func N01_Promises() {
	e := apiEnv()
	e.B.Funcs["x"] = func(in *vmh.Inst) {
		switch nd.Choice("callee", 5) {
		case 0:
			in.Finish([]byte{1})
		case 1:
			in.Trap()
		case 2:
			in.Do(func() { in.Burn(1 << 62) })
		case 3:
			in.Finish([]byte("ESDTTransfer@01@02"))
		default:
			in.Do(func() { api.XSignalError(in.Ctx(), 0, 3) })
		}
	}
	e.A.Funcs["good"] = func(in *vmh.Inst) {}
	e.A.Funcs["bad"] = func(in *vmh.Inst) { in.Trap() }
	dest := [][]byte{vmh.Bob, vmh.Alice, vmh.Far, vmh.User, vmh.New}[nd.Choice("destination", 5)]
	data := []string{"x", "", "@", "zz", "x@0", "ESDTTransfer@01@02", "x@01"}[nd.Choice("data", 7)]
	success := []string{"good", "bad", "none", "", "init"}[nd.Choice("success", 3+2*nd.Tier())]
	name := []string{"p", ""}[nd.Choice("name", 1+nd.Tier())]
	gas := nd.I64("gas")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Put(0, dest)
		in.Put(32, vmh.Zero32())
		in.Put(70, []byte(data))
		in.Put(100, []byte(success))
		in.Put(120, []byte(name))
		in.Do(func() {
			api.XCreateAsyncCall(in.Ctx(), 120, int32(len(name)), 0, 32, 70, int32(len(data)), 100, int32(len(success)), 100, int32(len(success)), gas)
		})
	}
	in := vmh.Input(vmh.Alice, "f", 1<<40)
	in.CallType = vmcommon.CallType(nd.Choice("type", 3))
	out := serves(e, "a promise", func() (*vmcommon.VMOutput, error) { return e.Call(in) })
	if out == nil {
		return
	}
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
	} else {
		nd.Reach("failed")
	}
}

// N01_Callback sends callbacks to a contract that waits for one, for another one or
// for none.
func N01_Callback() {
	e := apiEnv()
	e.A.Funcs["good"] = func(in *vmh.Inst) {}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Put(0, vmh.Far)
		in.Put(32, vmh.Zero32())
		in.Put(70, []byte("x"))
		in.Put(100, []byte("good"))
		in.Put(120, []byte("p"))
		in.Do(func() {
			api.XCreateAsyncCall(in.Ctx(), 120, 1, 0, 32, 70, 1, 100, 4, 100, 4, 0)
		})
	}
	what := "a callback"
	if nd.Bool("waits") {
		in := vmh.Input(vmh.Alice, "f", 1<<40)
		if nd.Bool("called by a contract") {
			in.CallerAddr = vmh.Bob
			what = "the callback that resolves the last promise of a call made by a contract"
		}
		out := serves(e, "a promise", func() (*vmcommon.VMOutput, error) { return e.Call(in) })
		if out == nil {
			return
		}
		nd.Assert(out.ReturnCode == vmcommon.Ok, "a promise to another shard is accepted")
		for _, u := range out.OutputAccounts[string(vmh.Alice)].StorageUpdates {
			e.AccA.Put(u.Offset, u.Data)
		}
	}
	cb := vmh.Input(vmh.Alice, "callBack", 1<<40, []byte{0})
	cb.CallType = vmcommon.AsynchronousCallBack
	cb.CallerAddr = [][]byte{vmh.Far, vmh.User, vmh.Bob}[nd.Choice("from", 3)]
	out := serves(e, what, func() (*vmcommon.VMOutput, error) { return e.Call(cb) })
	if out == nil {
		return
	}
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
	} else {
		nd.Reach("failed")
	}
}

// N01_Forged has a contract write the entry in which the host keeps its promises.
func N01_Forged() {
	e := apiEnv()
	texts := []string{"null", "{", "{}", `{"AsyncContextMap":{"a":null}}`, `{"AsyncContextMap":{"a":{"AsyncCalls":[null]}}}`,
		`{"AsyncContextMap":{"a":{"AsyncCalls":[]}}}`, `{"AsyncContextMap":3}`}
	text := texts[nd.Choice("text", len(texts))]
	e.AccA.Put(append([]byte("originalTx"), []byte("ARWEN@ASYNC")...), []byte(text))
	cb := vmh.Input(vmh.Alice, "callBack", 1<<40, []byte{0})
	cb.CallType = vmcommon.AsynchronousCallBack
	cb.CallerAddr = vmh.Far
	out := serves(e, "a callback to a contract that forged its promises", func() (*vmcommon.VMOutput, error) { return e.Call(cb) })
	if out == nil {
		return
	}
	nd.Reach("answered")
}
