// Package asynch: asynchronous calls and their callbacks.
package asynch

import (
	"bytes"
	"encoding/hex"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

const plenty = uint64(1) << 40

// how a contract ends.
const (
	ends = iota
	signals
	traps
	burns // uses up all gas
	endings
)

// finish ends a contract that way.
func finish(in *vmh.Inst, how int) {
	switch how {
	case signals:
		in.Signal([]byte("m"))
	case traps:
		in.Trap()
	case burns:
		in.Burn(1 << 50)
		in.Do(func() {})
	}
}

func eq(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// codeOf is the return code of an ending.
func codeOf(how int) vmcommon.ReturnCode {
	switch how {
	case signals:
		return vmcommon.UserError
	case traps:
		return vmcommon.ExecutionFailed
	case burns:
		return vmcommon.OutOfGas
	}
	return vmcommon.Ok
}

// seen is what a contract sees of the call that runs it.
type seen struct {
	n      int
	caller []byte
	value  *big.Int
	kind   vmcommon.CallType
	args   [][]byte
}

func (s *seen) look(in *vmh.Inst) {
	s.n++
	vi := in.W.Host.Runtime().GetVMInput()
	s.caller, s.value, s.kind, s.args = vi.CallerAddr, vi.CallValue, vi.CallType, in.W.Host.Runtime().Arguments()
}

func (s *seen) check(n int, caller []byte, value *big.Int, kind vmcommon.CallType, args [][]byte, who string) {
	nd.Assert(s.n == n, who+" runs exactly as often as it is called")
	if s.n == 0 || n == 0 {
		return
	}
	nd.Assert(bytes.Equal(s.caller, caller), who+" sees its caller")
	nd.Assert(s.value.Cmp(value) == 0, who+" sees the value sent to it")
	nd.Assert(s.kind == kind, who+" sees how it was called")
	nd.Assert(eq(s.args, args), who+" gets exactly the arguments meant for it")
}

// C01_Sync makes an asynchronous call to a contract of the same shard.
func C01_Sync() {
	syncCall(nd.Choice("callee", endings), nd.Choice("callback", 4))
}

// syncCall runs one call: the callback may end in any way but burns, or be
// missing (3).
func syncCall(bEnd, cEnd int) {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	x, y, z := nd.Bytes("x", 1), nd.Bytes("y", 1), nd.Bytes("z", 1)
	arg, ret := nd.Bytes("arg", 1), nd.Bytes("ret", 1)
	v, v32 := vmh.Value("value")
	var g, cb seen
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Store([]byte("a"), x)
		m.Put(vmh.Alice, []byte("a"), x)
		in.Finish([]byte("f"))
		m.Ret = append(m.Ret, []byte("f"))
		in.Log([][]byte{{1}}, x)
		m.Logs = append(m.Logs, vmh.MLog{Addr: vmh.Alice, Topics: [][]byte{{1}}, Data: x})
		in.Async(vmh.Bob, v32, vmh.CallData("g", arg))
		nd.Assert(in.BP != 0, "an asynchronous call ends the contract")
	}
	pays := m.Balance(vmh.Alice).Cmp(v) >= 0
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		g.look(in)
		in.Store([]byte("b"), y)
		in.Finish(ret)
		in.Log([][]byte{{2}}, y)
		finish(in, bEnd)
		if bEnd == ends {
			m.Move(vmh.Alice, vmh.Bob, v)
			m.Put(vmh.Bob, []byte("b"), y)
			m.Ret = append(m.Ret, ret)
			m.Logs = append(m.Logs, vmh.MLog{Addr: vmh.Bob, Topics: [][]byte{{2}}, Data: y})
		}
	}
	if cEnd != 3 {
		e.A.Funcs["callBack"] = func(in *vmh.Inst) {
			cb.look(in)
			got, _ := in.Load([]byte("a"))
			nd.Assert(bytes.Equal(got, x), "the callback sees what its contract stored before the call")
			in.Store([]byte("c"), z)
			in.Finish(z)
			finish(in, cEnd)
			if cEnd == ends {
				m.Put(vmh.Alice, []byte("c"), z)
				m.Ret = append(m.Ret, z)
			}
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts, whatever becomes of the call and the callback")
	if !pays {
		nd.Reach("cannot pay")
		g.check(0, nil, nil, 0, nil, "the destination")
		nd.Assert(cb.n == btoi(cEnd != 3), "the callback runs once")
		if cEnd != 3 {
			nd.Assert(len(cb.args) == 2 && bytes.Equal(cb.args[0], []byte{byte(vmcommon.OutOfFunds)}), "the callback is told that the value could not be paid")
		}
	} else {
		g.check(1, vmh.Alice, v, vmcommon.AsynchronousCall, [][]byte{arg}, "the destination")
	}
	n := btoi(cEnd != 3)
	if pays {
		if bEnd == ends {
			nd.Reach("success")
			cb.check(n, vmh.Bob, big.NewInt(0), vmcommon.AsynchronousCallBack, [][]byte{{}, ret}, "the callback")
		} else {
			nd.Reach("failure")
			nd.Assert(cb.n == n, "the callback runs once")
			if n == 1 {
				nd.Assert(len(cb.args) == 2 && bytes.Equal(cb.args[0], []byte{byte(codeOf(bEnd))}), "the callback is told the code of the failure")
				if bEnd == signals && len(cb.args) == 2 {
					nd.Assert(bytes.Equal(cb.args[1], []byte("m")), "the callback is told the message of the failure")
				}
				nd.Assert(bytes.Equal(cb.caller, vmh.Bob) && cb.kind == vmcommon.AsynchronousCallBack && cb.value.Sign() == 0, "the callback is told who answers")
			}
		}
	}
	if cEnd == 3 && len(out.ReturnData) == len(m.Ret) {
		nd.Reach("no callback")
	} else if cEnd != ends {
		// the failure of the callback is reported in the results
		nd.Assert(len(out.ReturnData) == len(m.Ret)+2, "the failure of a callback is reported")
		if len(out.ReturnData) == len(m.Ret)+2 {
			nd.Assert(bytes.Equal(out.ReturnData[len(m.Ret)+1], []byte("currentTx")), "the failure of a callback is reported with the transaction it belongs to")
			code := codeOf(cEnd)
			if cEnd == 3 {
				// nothing was locked for it
				code = vmcommon.OutOfGas
			}
			nd.Assert(string(out.ReturnData[len(m.Ret)]) == code.String(), "the failure of a callback is reported with its code")
			m.Ret = append(m.Ret, out.ReturnData[len(m.Ret):]...)
		}
	}
	m.Check(out)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C01_CallbackValue lets the destination send value back before it answers.
func C01_CallbackValue() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	v, v32 := vmh.Value("value")
	w, w32 := vmh.Value("back")
	nd.Assume(v.Cmp(big.NewInt(1000)) <= 0 && w.Cmp(big.NewInt(1000)) <= 0)
	data := nd.BytesUpTo("data", 1)
	answers := nd.Bool("answers")
	var cb seen
	e.A.Funcs["f"] = func(in *vmh.Inst) { in.Async(vmh.Bob, v32, []byte("g")) }
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		m.Move(vmh.Alice, vmh.Bob, v)
		in.Transfer(vmh.Alice, w32, data)
		m.Move(vmh.Bob, vmh.Alice, w)
		m.Acc(vmh.Alice).Xfers = append(m.Acc(vmh.Alice).Xfers, vmh.MXfer{From: vmh.Bob, Value: w, Data: data})
		if answers {
			in.Finish([]byte{1})
			m.Ret = append(m.Ret, []byte{1})
		}
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) { cb.look(in) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "an asynchronous call succeeds")
	want, args := big.NewInt(0), [][]byte{{}}
	if answers {
		args = append(args, []byte{1})
	} else if len(data) == 0 {
		want = w
	}
	cb.check(1, vmh.Bob, want, vmcommon.AsynchronousCallBack, args, "the callback")
	m.Check(out)
}

// C01_Send makes an asynchronous call to another shard.
func C01_Send() {
	e := vmh.NewEnv(vmh.Opt{Dyn: uint32(1000) * uint32(nd.Choice("dyn", 2))})
	m := vmh.NewModel(e.W)
	gas := uint64(nd.U16("gas"))
	v, v32 := vmh.Value("value")
	arg, x := nd.Bytes("arg", 1), nd.Bytes("x", 1)
	data := vmh.CallData("g", arg)
	callback := nd.Bool("callback")
	left := uint64(0)
	if callback {
		e.A.Funcs["callBack"] = func(in *vmh.Inst) { nd.Fail("no callback runs before the answer") }
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Store([]byte("a"), x)
		m.Put(vmh.Alice, []byte("a"), x)
		left = e.H.Metering().GasLeft()
		in.Async(vmh.Far, v32, data)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if out.ReturnCode != vmcommon.Ok {
		nd.Reach("refused")
		vmh.CheckFailed(out)
		if gas > 1000 {
			nd.Assert(v.Cmp(big.NewInt(1000)) > 0, "an asynchronous call that is paid for is sent")
		}
		return
	}
	nd.Reach("sent")
	nd.Assert(m.Move(vmh.Alice, vmh.Far, v), "an asynchronous call that cannot be paid is not sent")
	m.Acc(vmh.Far).Xfers = []vmh.MXfer{{From: vmh.Alice, Value: v, Data: data}}
	m.Check(out)
	far := out.OutputAccounts[string(vmh.Far)]
	if far == nil || len(far.OutputTransfers) != 1 {
		return
	}
	t := far.OutputTransfers[0]
	nd.Assert(t.CallType == vmcommon.AsynchronousCall, "an asynchronous call is sent as such")
	nd.Assert(out.GasRemaining == 0, "an asynchronous call takes all gas left along")
	nd.Assert(t.GasLimit+t.GasLocked < left && t.GasLimit+t.GasLocked+20 >= left, "an asynchronous call takes all gas left along")
	if callback {
		nd.Assert(t.GasLocked >= 100, "gas is locked for the callback")
	}
}

// C01_Callee is the destination's side of a call from another shard.
func C01_Callee() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	v := new(big.Int).SetUint64(uint64(nd.U16("value")))
	ret, y := nd.BytesUpTo("ret", 1), nd.Bytes("y", 1)
	nret := nd.Choice("nret", 3)
	end := nd.Choice("end", endings)
	send := nd.Bool("send")
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Store([]byte("b"), y)
		m.Put(vmh.Bob, []byte("b"), y)
		for i := 0; i < nret; i++ {
			in.Finish(ret)
			m.Ret = append(m.Ret, ret)
		}
		if send {
			b := vmh.Zero32()
			b[31] = 5
			in.Transfer(vmh.Far, b, nil)
			m.Move(vmh.Bob, vmh.Far, big.NewInt(5))
			m.Acc(vmh.Far).Xfers = []vmh.MXfer{{From: vmh.Bob, Value: big.NewInt(5)}}
		}
		finish(in, end)
	}
	input := vmh.Input(vmh.Bob, "g", plenty)
	input.CallType = vmcommon.AsynchronousCall
	input.CallerAddr = vmh.Far
	input.CallValue = v
	m.Receive(vmh.Bob, v)
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	if end != ends {
		nd.Reach("failed")
		nd.Assert(out.ReturnCode == codeOf(end), "a failed call is reported with its code")
		vmh.CheckFailed(out)
		return
	}
	nd.Reach("answered")
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a call from another shard succeeds")
	data := "@" + hex.EncodeToString([]byte(vmcommon.Ok.String()))
	for i := 0; i < nret; i++ {
		data += "@" + hex.EncodeToString(ret)
	}
	far := out.OutputAccounts[string(vmh.Far)]
	nd.Assert(far != nil && len(far.OutputTransfers) == 1+btoi(send), "a call from another shard is answered exactly once")
	if far == nil || len(far.OutputTransfers) != 1+btoi(send) {
		return
	}
	t := far.OutputTransfers[btoi(send)]
	nd.Assert(t.CallType == vmcommon.AsynchronousCallBack, "an answer is sent as such")
	nd.Assert(string(t.Data) == data, "an answer carries the return code and the results")
	nd.Assert(bytes.Equal(t.SenderAddress, vmh.Bob), "an answer names its sender")
	nd.Assert(t.GasLimit > plenty-1000 && out.GasRemaining == 0, "an answer takes the gas left along")
	nd.Assert(t.Value.Sign() == 0 || t.Value.Cmp(v) == 0, "an answer carries no other value")
	nd.Assert(t.Value.Sign() == 0, "the destination keeps the value it was called with")
}

// C01_Answer is the caller's side of an answer from another shard.
func C01_Answer() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	v := new(big.Int).SetUint64(uint64(nd.U16("value")))
	code, ret, x := nd.Bytes("code", 1), nd.Bytes("ret", 1), nd.Bytes("x", 1)
	kind := []vmcommon.CallType{vmcommon.DirectCall, vmcommon.AsynchronousCall, vmcommon.AsynchronousCallBack}[nd.Choice("kind", 3)]
	end := nd.Choice("end", 4)
	var cb seen
	if end != 3 {
		e.A.Funcs["callBack"] = func(in *vmh.Inst) {
			cb.look(in)
			in.Store([]byte("a"), x)
			finish(in, end)
		}
	}
	input := vmh.Input(vmh.Alice, "callBack", plenty, code, ret)
	input.CallType = kind
	input.CallerAddr = vmh.Far
	input.CallValue = v
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	if kind != vmcommon.AsynchronousCallBack {
		nd.Reach("not an answer")
		nd.Assert(cb.n == 0 && out.ReturnCode == vmcommon.UserError, "a callback runs for answers only")
		vmh.CheckFailed(out)
		return
	}
	cb.check(btoi(end != 3), vmh.Far, v, vmcommon.AsynchronousCallBack, [][]byte{code, ret}, "the callback")
	if end == ends {
		nd.Assert(out.ReturnCode == vmcommon.Ok, "an answer is processed")
		m.Receive(vmh.Alice, v)
		m.Put(vmh.Alice, []byte("a"), x)
		m.Check(out)
		nd.Reach("processed")
	} else if end != 3 {
		nd.Assert(out.ReturnCode == codeOf(end), "a failed callback is reported with its code")
		vmh.CheckFailed(out)
	}
}

// C01_Levels makes an asynchronous call inside a nested call or inside another
// asynchronous call.
func C01_Levels() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	outer := nd.Choice("outer", 3)
	hEnd, bcEnd := nd.Choice("inner callee", 3), nd.Choice("inner callback", 2)
	r1, r2 := nd.Bytes("r1", 1), nd.Bytes("r2", 1)
	v1, v1b := vmh.Value("v1")
	v2, v2b := vmh.Value("v2")
	nd.Assume(v1.Cmp(big.NewInt(1000)) <= 0 && v2.Cmp(big.NewInt(1000)) <= 0)
	order := ""
	var g, h, bc, ac seen
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		order += "f"
		switch outer {
		case 0:
			in.Async(vmh.Bob, v1b, []byte("g"))
		case 1:
			nd.Assert(in.Nested(vmh.Dest, 1<<36, vmh.Bob, v1b, "g") == 0, "a nested call that makes an asynchronous call succeeds")
		case 2:
			nd.Assert(in.Nested(vmh.TransferExec, 1<<36, vmh.Bob, v1b, "g") == 0, "a nested call that makes an asynchronous call succeeds")
		}
		order += "F"
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		g.look(in)
		order += "g"
		m.Move(vmh.Alice, vmh.Bob, v1)
		in.Finish(r1)
		m.Ret = append(m.Ret, r1)
		in.Async(vmh.Carol, v2b, []byte("h"))
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		h.look(in)
		order += "h"
		in.Store([]byte("c"), r2)
		finish(in, hEnd)
		if hEnd == ends {
			m.Move(vmh.Bob, vmh.Carol, v2)
			m.Put(vmh.Carol, []byte("c"), r2)
		}
	}
	e.B.Funcs["callBack"] = func(in *vmh.Inst) {
		bc.look(in)
		order += "b"
		in.Store([]byte("b"), r2)
		in.Finish(r2)
		finish(in, bcEnd)
		if bcEnd == ends {
			m.Ret = append(m.Ret, r2)
			m.Put(vmh.Bob, []byte("b"), r2)
		} else {
			m.Ret = append(m.Ret, []byte(codeOf(bcEnd).String()), []byte("currentTx"))
		}
	}
	var told [][]byte
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		ac.look(in)
		order += "a"
		told = append([][]byte{{}}, m.Ret...)
		in.Store([]byte("a"), r1)
		m.Put(vmh.Alice, []byte("a"), r1)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts")
	kind := vmcommon.AsynchronousCall
	if outer == 0 {
		nd.Assert(order == "fFghba", "call, callee and callbacks run in this order")
	} else {
		kind = vmcommon.DirectCall
		nd.Assert(order == "fghbF", "a nested call is complete, callbacks included, before its caller goes on")
	}
	g.check(1, vmh.Alice, v1, kind, nil, "the destination")
	h.check(1, vmh.Bob, v2, vmcommon.AsynchronousCall, nil, "the inner destination")
	nd.Assert(bc.n == 1 && len(bc.args) > 0, "the inner callback runs once")
	if hEnd == ends {
		nd.Assert(eq(bc.args, [][]byte{{}}), "the inner callback is told of success")
	} else if len(bc.args) > 0 {
		nd.Assert(bytes.Equal(bc.args[0], []byte{byte(codeOf(hEnd))}), "the inner callback is told of the failure")
	}
	if outer == 0 {
		ac.check(1, vmh.Bob, big.NewInt(0), vmcommon.AsynchronousCallBack, told, "the outer callback")
	} else {
		nd.Assert(ac.n == 0, "a callback runs for asynchronous calls only")
	}
	m.Check(out)
}

// C01_CallbackSends lets a callback make another asynchronous call.
func C01_CallbackSends() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	v, v32 := vmh.Value("value")
	nd.Assume(v.Cmp(big.NewInt(1000)) <= 0)
	same := nd.Bool("same")
	direct := nd.Bool("direct")
	ran, back := 0, 0
	e.A.Funcs["f"] = func(in *vmh.Inst) { in.Async(vmh.Bob, vmh.Zero32(), []byte("g")) }
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		back++
		if back > 1 {
			return
		}
		if same {
			in.Async(vmh.Carol, v32, []byte("h"))
		} else {
			in.Async(vmh.Far, v32, []byte("h"))
			m.Move(vmh.Alice, vmh.Far, v)
			m.Acc(vmh.Far).Xfers = []vmh.MXfer{{From: vmh.Alice, Value: v, Data: []byte("h")}}
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		ran++
		m.Move(vmh.Alice, vmh.Carol, v)
	}
	input := vmh.Input(vmh.Alice, "f", plenty)
	if direct {
		input = vmh.Input(vmh.Alice, "callBack", plenty, []byte{0})
		input.CallType = vmcommon.AsynchronousCallBack
		input.CallerAddr = vmh.Far
	}
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a callback may make another asynchronous call")
	nd.Assert(ran == btoi(same) && back == 1+btoi(same), "every asynchronous call runs once and is answered once")
	m.Check(out)
	nd.Reach("done")
}

// C01_Data makes asynchronous calls with data of every form.
func C01_Data() {
	e := vmh.NewEnv(vmh.Opt{})
	data := nd.BytesUpTo("data", 4)
	to := [][]byte{vmh.Bob, vmh.Far, vmh.User}[nd.Choice("to", 3)]
	back := 0
	var g seen
	e.A.Funcs["f"] = func(in *vmh.Inst) { in.Async(to, vmh.Zero32(), data) }
	e.A.Funcs["callBack"] = func(in *vmh.Inst) { back++ }
	e.B.Funcs["g"] = func(in *vmh.Inst) { g.look(in) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	fn, args, ok := parse(data)
	switch {
	case !ok:
		nd.Reach("malformed")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "malformed call data fails the caller")
		vmh.CheckFailed(out)
	case bytes.Equal(to, vmh.Bob):
		nd.Reach("called")
		nd.Assert(out.ReturnCode == vmcommon.Ok && back == 1, "an asynchronous call is answered once")
		if string(fn) == "g" {
			g.check(1, vmh.Alice, big.NewInt(0), vmcommon.AsynchronousCall, args, "the destination")
		} else {
			nd.Assert(g.n == 0, "no other function runs")
		}
	default:
		nd.Reach("sent")
		nd.Assert(out.ReturnCode == vmcommon.Ok && back == 0, "a call that is sent out is not answered yet")
		x := out.OutputAccounts[string(to)]
		nd.Assert(x != nil && len(x.OutputTransfers) == 1 && bytes.Equal(x.OutputTransfers[0].Data, data), "a call is sent out exactly once with its data")
	}
}

// parse splits call data: a name, then hexadecimal arguments.
func parse(data []byte) ([]byte, [][]byte, bool) {
	parts := bytes.Split(data, []byte("@"))
	if len(parts[0]) == 0 {
		return nil, nil, false
	}
	var args [][]byte
	for _, p := range parts[1:] {
		a := make([]byte, hex.DecodedLen(len(p)))
		if _, err := hex.Decode(a, p); err != nil {
			return nil, nil, false
		}
		args = append(args, a)
	}
	return parts[0], args, true
}

// C01_Lock sees what gas a callback has after a callee that took everything.
func C01_Lock() {
	lock := uint64(nd.U16("lock"))
	e := vmh.NewEnv(vmh.Opt{Lock: lock, Dyn: uint32(1000) * uint32(nd.Choice("dyn", 2))})
	nd.Assume(lock > 0)
	ran := 0
	e.A.Funcs["f"] = func(in *vmh.Inst) { in.Async(vmh.Bob, vmh.Zero32(), []byte("g")) }
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		ran++
		nd.Assert(e.H.Metering().GasLeft()+40 >= lock, "the gas locked for a callback is there for it, whatever the callee used")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) { finish(in, burns) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<20))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts")
	nd.Assert(ran == 1 || lock < 40, "the callback runs")
	nd.Reach("done")
}

// C01_Token moves tokens by an asynchronous call to a built-in function, or
// answers an asynchronous call with tokens.
func C01_Token() {
	const transfer = "ESDTTransfer"
	e := vmh.NewEnv(vmh.Opt{Builtins: []string{transfer}})
	amount, y := nd.Bytes("amount", 1), nd.Bytes("y", 1)
	// to another contract here, to another shard, as an answer, to the caller
	// of an ordinary call, to somebody else than the caller
	how := nd.Choice("how", 5)
	refusal := nd.Choice("refused", 3)
	refused := refusal > 0
	// the node tells of a refused transfer of an answer by an error
	nd.Assume(how != 2 || refusal != 2)
	n := 0
	var asked vmcommon.ContractCallInput
	var cb seen
	var esdt int
	e.W.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		n++
		asked = *in
		if refused {
			out := &vmcommon.VMOutput{ReturnCode: vmcommon.UserError, ReturnMessage: "no", GasRefund: big.NewInt(0)}
			if refusal == 1 {
				return out, errRefused
			}
			return out, nil
		}
		out := &vmcommon.VMOutput{GasRemaining: in.GasProvided - 10, GasRefund: big.NewInt(0)}
		if len(in.Arguments) > 2 {
			data := vmh.CallData(string(in.Arguments[2]), in.Arguments[3:]...)
			out.OutputAccounts = map[string]*vmcommon.OutputAccount{string(in.RecipientAddr): {
				Address: in.RecipientAddr, BalanceDelta: big.NewInt(0),
				OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(0), GasLimit: out.GasRemaining, Data: data, SenderAddress: in.CallerAddr, CallType: in.CallType}},
			}}
			out.GasRemaining = 0
		}
		return out, nil
	}
	data := vmh.CallData(transfer, []byte("TOK"), amount)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		switch how {
		case 0:
			in.Async(vmh.Bob, vmh.Zero32(), data)
		case 1:
			in.Async(vmh.Far, vmh.Zero32(), data)
		case 2, 4:
			in.Async(vmh.Bob, vmh.Zero32(), []byte("g"))
		case 3:
			in.Nested(vmh.Dest, 1<<36, vmh.Bob, vmh.Zero32(), "g")
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Finish(y)
		if how == 4 {
			in.Async(vmh.Carol, vmh.Zero32(), data)
		} else {
			in.Async(vmh.Alice, vmh.Zero32(), data)
		}
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		cb.look(in)
		esdt = len(in.W.Host.Runtime().GetVMInput().ESDTTransfers)
	}
	var bcb seen
	e.B.Funcs["callBack"] = func(in *vmh.Inst) { bcb.look(in) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(n == 1, "the ledger is asked exactly once")
	if n != 1 {
		return
	}
	nd.Assert(asked.Function == transfer && len(asked.Arguments) >= 2 && bytes.Equal(asked.Arguments[0], []byte("TOK")) && bytes.Equal(asked.Arguments[1], amount), "the ledger is asked for the token and the amount given")
	nd.Assert(how > 2 || bcb.n == 0, "an answer is not answered")
	switch how {
	case 3, 4:
		to := vmh.Alice
		if how == 4 {
			to = vmh.Carol
		}
		nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts")
		nd.Assert(bytes.Equal(asked.CallerAddr, vmh.Bob) && bytes.Equal(asked.RecipientAddr, to) && asked.CallType == vmcommon.AsynchronousCall, "the ledger moves the tokens from the caller to the destination")
		nd.Assert(bcb.n == 1 && len(bcb.args) > 0 && (len(bcb.args[0]) == 0) == !refused, "the callback is told whether the tokens moved")
		nd.Assert(cb.n == btoi(how == 4), "every asynchronous call is answered once")
	case 0:
		nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts")
		nd.Assert(bytes.Equal(asked.CallerAddr, vmh.Alice) && bytes.Equal(asked.RecipientAddr, vmh.Bob) && asked.CallType == vmcommon.AsynchronousCall, "the ledger moves the tokens from the caller to the destination")
		nd.Assert(cb.n == 1 && len(cb.args) > 0, "the callback runs once")
		if len(cb.args) > 0 {
			nd.Assert((len(cb.args[0]) == 0) == !refused, "the callback is told whether the tokens moved")
		}
	case 1:
		nd.Assert(bytes.Equal(asked.CallerAddr, vmh.Alice) && bytes.Equal(asked.RecipientAddr, vmh.Far) && asked.CallType == vmcommon.AsynchronousCall, "the ledger moves the tokens from the caller to the destination")
		nd.Assert((out.ReturnCode == vmcommon.Ok) == !refused, "tokens that cannot be sent to another shard fail the caller")
		nd.Assert(cb.n == 0, "no callback runs before the answer")
	case 2:
		nd.Assert(out.ReturnCode == vmcommon.Ok, "the caller's own work lasts")
		nd.Assert(bytes.Equal(asked.CallerAddr, vmh.Bob) && bytes.Equal(asked.RecipientAddr, vmh.Alice) && asked.CallType == vmcommon.AsynchronousCallBack, "the ledger moves the tokens of an answer from the callee to the caller")
		nd.Assert(eq(asked.Arguments, [][]byte{[]byte("TOK"), amount, []byte("callBack"), {}, y}), "the callback gets the rest of the answer")
		if !refused {
			nd.Reach("answered with tokens")
			cb.check(1, vmh.Bob, big.NewInt(0), vmcommon.AsynchronousCallBack, [][]byte{{}, y}, "the callback")
			nd.Assert(esdt == 1, "the callback sees the tokens of the answer")
		} else {
			nd.Assert(cb.n == 0, "a callback does not run without the tokens of the answer")
		}
	}
	nd.Reach("done")
}

type refusal struct{}

func (refusal) Error() string { return "refused by the ledger" }

var errRefused = refusal{}
