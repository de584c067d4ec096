// Package metering: gas accounting of whole executions.
package metering

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// book is the reference: who owes how much gas.
type book struct {
	accs [][]byte
	gas  []uint64
	// twice counts the prices of transferValueExecute, which G02 knows are charged twice.
	twice []uint64
	// must tells that the running call may not fail: every caller of it would.
	must bool
}

func (b *book) at(acc []byte) int {
	for i, a := range b.accs {
		if bytes.Equal(a, acc) {
			return i
		}
	}
	b.accs = append(b.accs, acc)
	b.gas = append(b.gas, 0)
	b.twice = append(b.twice, 0)
	return len(b.accs) - 1
}

func (b *book) charge(acc []byte, gas uint64) {
	i := b.at(acc)
	b.gas[i] += gas
}

// transfer books a transferValueExecute.
func (b *book) transfer(acc []byte) {
	b.charge(acc, 1)
	i := b.at(acc)
	b.twice[i]++
}

func (b *book) clone() book {
	return book{append([][]byte{}, b.accs...), append([]uint64{}, b.gas...), append([]uint64{}, b.twice...), b.must}
}

// sums are the parts of what a result says about gas.
func sums(out *vmcommon.VMOutput) (used, forwarded uint64) {
	for _, a := range out.OutputAccounts {
		used += a.GasUsed
		for _, x := range a.OutputTransfers {
			forwarded += x.GasLimit + x.GasLocked
		}
	}
	return
}

// conserved states that all the gas of a transaction is accounted for.
func conserved(out *vmcommon.VMOutput, gas uint64, what string) {
	used, forwarded := sums(out)
	nd.Assert(used+forwarded+out.GasRemaining == gas, "gas used, forwarded and remaining add up to the gas provided: "+what)
}

// check compares a result with the reference.
func (b *book) check(out *vmcommon.VMOutput, what string) {
	for _, a := range out.OutputAccounts {
		want, twice := uint64(0), uint64(0)
		for i, x := range b.accs {
			if bytes.Equal(a.Address, x) {
				want, twice = b.gas[i], b.twice[i]
			}
		}
		nd.Assert(a.GasUsed == want || a.GasUsed == want+twice, "every account is charged what its own code used: "+what)
	}
	for _, x := range b.accs {
		_, ok := out.OutputAccounts[string(x)]
		nd.Assert(ok, "every account that used gas is in the result")
	}
}

// plenty is enough for any tree here; part is a gas limit inside it.
const plenty = uint64(1) << 40
const part = uint64(1) << 24

// kinds of nested calls used in trees.
var kinds = []int{vmh.Dest, vmh.Same, vmh.Delegate, vmh.ReadOnly, vmh.DestByCaller, vmh.TransferExec}

// call makes a nested call and books it: run does the callee's work and
// tells whether it succeeds.
func (b *book) call(in *vmh.Inst, self []byte, kind int, to []byte, fn string, limit uint64) bool {
	before := b.clone()
	b.must = kind != vmh.TransferExec
	r := in.Nested(kind, int64(limit), to, vmh.Zero32(), fn)
	b.must = before.must
	if r == -2 {
		return false
	}
	if r != 0 {
		nd.Assert(kind == vmh.TransferExec, "a call that succeeds tells so")
		*b = before
		b.transfer(self)
		b.charge(self, limit)
		return false
	}
	if kind == vmh.TransferExec {
		b.transfer(self)
	} else {
		b.charge(self, 1)
	}
	return true
}

// G01_Tree runs trees of nested calls of every kind, with every call
// succeeding or failing, and calls back into running contracts.
func G01_Tree() {
	e := vmh.NewEnv(vmh.Opt{})
	var b book
	a1, b1, c1, b2 := uint64(nd.U16("a1")), uint64(nd.U16("b1")), uint64(nd.U16("c1")), uint64(nd.U16("b2"))
	leaf := func(self []byte, in *vmh.Inst) {
		b.charge(self, 5+c1)
		in.Burn(c1)
		if !b.must && nd.Bool("leaffails") {
			in.FailWith(0)
		}
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) { leaf(vmh.Carol, in) }
	e.A.Funcs["h"] = func(in *vmh.Inst) { leaf(vmh.Alice, in) }
	e.B.Funcs["h"] = func(in *vmh.Inst) { leaf(vmh.Bob, in) }
	second := nd.Choice("second", 3)
	kind2 := vmh.Dest
	if second > 0 {
		kind2 = []int{vmh.Dest, vmh.Same, vmh.TransferExec}[nd.Choice("kind2", 3)]
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		must := b.must
		b.charge(vmh.Bob, 5+b1)
		in.Burn(b1)
		if second == 1 {
			b.call(in, vmh.Bob, kind2, vmh.Carol, "h", part/4)
		} else if second == 2 {
			b.call(in, vmh.Bob, kind2, vmh.Alice, "h", part/4)
		}
		b.charge(vmh.Bob, b2)
		in.Burn(b2)
		if !must && nd.Bool("fails") {
			in.FailWith(0)
		}
	}
	kind1 := kinds[nd.Choice("kind1", len(kinds))]
	third := nd.Choice("third", 3)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		b.charge(vmh.Alice, 5+a1)
		in.Burn(a1)
		b.call(in, vmh.Alice, kind1, vmh.Bob, "g", part)
		if third == 1 {
			b.call(in, vmh.Alice, vmh.TransferExec, vmh.Bob, "h", part)
		} else if third == 2 {
			b.call(in, vmh.Alice, vmh.Same, vmh.Carol, "h", part)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a caller survives its nested calls")
	conserved(out, plenty, "nested calls")
	b.check(out, "nested calls")
	nd.Reach("tree")
}

// G01_Limits gives two levels of calls any limits and needs.
func G01_Limits() {
	gas, l1, l2 := uint64(nd.U16("gas")), uint64(nd.U16("l1")), uint64(nd.U16("l2"))
	b1, c1 := uint64(nd.U16("b1")), uint64(nd.U16("c1"))
	e := vmh.NewEnv(vmh.Opt{})
	kind1, kind2 := kinds[nd.Choice("kind1", 3)], kinds[nd.Choice("kind2", 2)]
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		in.Burn(c1)
		in.Do(func() {})
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Burn(b1)
		in.Nested(kind2, int64(l2), vmh.Carol, vmh.Zero32(), "h")
		in.Do(func() {})
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(kind1, int64(l1), vmh.Bob, vmh.Zero32(), "g")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
		conserved(out, gas, "limits")
	} else {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed transaction returns no gas")
	}
}

// tokens answers built-in functions: each costs `used`.
func tokens(e *vmh.Env, used uint64, forward uint64) {
	e.W.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		out := &vmcommon.VMOutput{GasRemaining: in.GasProvided - used, GasRefund: big.NewInt(0)}
		if forward > 0 {
			out.OutputAccounts = map[string]*vmcommon.OutputAccount{string(vmh.Far): {
				Address: vmh.Far, BalanceDelta: big.NewInt(0),
				OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(0), GasLimit: forward, SenderAddress: in.CallerAddr, Data: []byte("x")}},
			}}
			out.GasRemaining -= forward
		}
		return out, nil
	}
}

// ways of sending gas to another shard.
const (
	noForward = iota
	farTransfer
	farESDT
	farNFT
	farAsync
	forwards
)

// forwardStep sends gas to another shard.
func forwardStep(in *vmh.Inst, how int, gas int64) {
	switch how {
	case farTransfer:
		in.Nested(vmh.TransferExec, gas, vmh.Far, vmh.Zero32(), "g")
	case farESDT:
		in.TokenExec(vmh.Far, []byte("TOK"), vmh.Zero32(), false, 0, gas, "g")
	case farNFT:
		in.TokenExec(vmh.Far, []byte("TOK"), vmh.Zero32(), true, 1, gas, "g")
	case farAsync:
		in.Async(vmh.Far, vmh.Zero32(), []byte("g"))
	}
}

// G01_Forward sends gas to another shard, in one step of any kind.
func G01_Forward() {
	e := vmh.NewEnv(vmh.Opt{})
	tokens(e, uint64(nd.U8("ledger")), 0)
	gas, fwd := uint64(nd.U16("gas")), int64(nd.U16("fwd"))
	how := 1 + nd.Choice("how", forwards-1)
	a1 := uint64(nd.U16("a1"))
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Burn(a1)
		forwardStep(in, how, fwd)
		in.Burn(a1)
		in.Do(func() {})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
		conserved(out, gas, "forwarding")
		own := 5 + a1
		if how != farAsync {
			own += a1
		}
		paid := out.OutputAccounts[string(vmh.Alice)].GasUsed >= own
		if how == farTransfer {
			nd.Assert(paid || uint64(fwd) > 0, "the gas sent along is taken from the gas of the sender")
			nd.Assert(paid, "the gas sent along by transferValueExecute is taken from the gas of the sender")
		} else {
			nd.Assert(paid, "the gas sent along is taken from the gas of the sender")
		}
	} else {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed transaction returns no gas")
	}
}

// G01_ForwardNested sends gas to another shard before, inside and after a
// nested call.
func G01_ForwardNested() {
	e := vmh.NewEnv(vmh.Opt{})
	tokens(e, uint64(nd.U8("ledger")), 0)
	b1 := uint64(nd.U16("b1"))
	how := 1 + nd.Choice("how", forwards-1)
	where := nd.Choice("where", 3)
	kind := kinds[nd.Choice("kind", 2)*5]
	// the ledger is paid from the gas sent along
	fwd := 256 + int64(nd.U16("fwd"))
	fails := kind == vmh.TransferExec && nd.Bool("fails")
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Burn(b1 + 1<<20)
		if where == 1 {
			forwardStep(in, how, fwd)
		}
		if fails {
			in.FailWith(0)
		}
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Burn(1 << 20)
		if where == 0 {
			forwardStep(in, how, fwd)
		}
		in.Nested(kind, int64(part), vmh.Bob, vmh.Zero32(), "g")
		if where == 2 {
			forwardStep(in, how, fwd)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	if where == 0 && how != farAsync {
		good := out.ReturnCode == vmcommon.Ok
		if good && !fails {
			x, ok := out.OutputAccounts[string(vmh.Bob)]
			good = ok && x.GasUsed >= 5+b1+1<<20
		}
		nd.Assert(good, "nested calls work, and are charged to the callee, after the caller has sent gas to another shard")
		return
	}
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a transaction with enough gas that sends gas to another shard succeeds")
	conserved(out, plenty, "forwarding and nested calls")
	if !fails && where != 0 {
		x, ok := out.OutputAccounts[string(vmh.Bob)]
		nd.Assert(ok, "the callee is in the result")
		if !ok {
			return
		}
		if where == 1 && how == farTransfer {
			// see G01_Forward
			return
		}
		nd.Assert(x.GasUsed >= 5+b1+1<<20, "the callee is charged what it used, whoever sends gas to another shard")
	}
	nd.Reach("done")
}

// G01_Async makes an asynchronous call to a contract of the same shard, with
// any gas limit and needs of the callee and the callback.
func G01_Async() {
	c := [][3]int{{0, 0, 0}, {0, 2, 1}, {1, 0, 1}, {0, 1, 0}}[nd.Choice("config", 4)]
	async(c[0] == 1, c[1], uint32(c[2])*1000)
}

// G01_AsyncAll_Thorough does so for every combination.
func G01_AsyncAll_Thorough() {
	async(nd.Bool("bfails"), nd.Choice("cfails", 3), uint32(1000)*uint32(nd.Choice("dyn", 2)))
}

// callbackStep is the price of calling back: the step, and the bytes of
// "callBack@@01".
const callbackStep = 1 + 8 + 2 + 1

// G01_CallbackStep checks that a callback's own price is paid.
func G01_CallbackStep() {
	e := vmh.NewEnv(vmh.Opt{})
	b1 := uint64(nd.U16("b1"))
	e.A.Funcs["f"] = func(in *vmh.Inst) { in.Async(vmh.Bob, vmh.Zero32(), []byte("g")) }
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Burn(b1)
		in.Finish([]byte{1})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", plenty))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok && out.OutputAccounts[string(vmh.Alice)] != nil, "an asynchronous call succeeds")
	nd.Assert(out.OutputAccounts[string(vmh.Alice)].GasUsed == 13+callbackStep, "the step and the data of a callback in the same shard are charged")
}

// async runs an asynchronous call: the callee may fail, the callback may
// succeed (0), fail (1) or be missing (2).
func async(bfails bool, cfails int, dyn uint32) {
	gas := uint64(nd.U16("gas"))
	lock := uint64(nd.U8("lock"))
	a1, b1, c1 := uint64(nd.U16("a1")), uint64(nd.U16("b1")), uint64(nd.U16("c1"))
	e := vmh.NewEnv(vmh.Opt{Dyn: dyn, Lock: lock})
	called, back := 0, 0
	var failed [2]bool
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Burn(a1)
		in.Async(vmh.Bob, vmh.Zero32(), []byte("g"))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		called++
		in.Burn(b1)
		in.Finish([]byte{1})
		in.Do(func() {})
		if in.Stopped() {
			failed[0] = true
		} else if bfails {
			failed[0] = true
			in.FailWith(0)
		}
	}
	if cfails < 2 {
		e.A.Funcs["callBack"] = func(in *vmh.Inst) {
			back++
			spent := 10 + a1
			if called == 1 && !failed[0] {
				spent += 7 + b1
			}
			nd.Assert(e.H.Metering().GasLeft() <= gas && spent <= gas-e.H.Metering().GasLeft(), "a callback gets no more gas than is left of the transaction")
			in.Burn(c1)
			in.Do(func() {})
			if in.Stopped() {
				failed[1] = true
			} else if cfails == 1 {
				failed[1] = true
				in.FailWith(0)
			}
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if out.ReturnCode != vmcommon.Ok {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed transaction returns no gas")
		return
	}
	nd.Reach("ok")
	conserved(out, gas, "asynchronous calls")
	a, ok := out.OutputAccounts[string(vmh.Alice)]
	nd.Assert(ok, "the caller is in the result")
	own := 5 + a1
	if back == 1 && !failed[1] {
		own += 5 + c1
		nd.Reach("callback")
	}
	nd.Assert(a.GasUsed >= own, "the caller is charged for itself and its callback")
	if called == 1 && back == 1 && !failed[1] && !failed[0] {
		// the step and the byte of the call, and the step of locking
		extra := a.GasUsed - own - 3
		nd.Assert(extra == 0 || extra == callbackStep, "the caller of an asynchronous call is charged for the call, itself and its callback")
	}
	if called == 1 && !failed[0] {
		b, ok := out.OutputAccounts[string(vmh.Bob)]
		nd.Assert(ok && b.GasUsed == 5+b1+2, "the callee of an asynchronous call is charged what it used")
		nd.Reach("callee")
	}
	nd.Observe("back", back)
}

// G01_Callback is the answer to an asynchronous call to another shard: the
// gas locked for it pays it too.
func G01_Callback() {
	gas, locked, c1 := uint64(nd.U16("gas")), uint64(nd.U16("locked")), uint64(nd.U16("c1"))
	e := vmh.NewEnv(vmh.Opt{})
	send := nd.Choice("send", 3)
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		in.Burn(c1)
		in.Do(func() {})
		if send == 1 {
			in.Nested(vmh.Dest, int64(nd.U16("limit")), vmh.Bob, vmh.Zero32(), "g")
		}
		if send == 2 {
			in.Async(vmh.Far, vmh.Zero32(), []byte("g"))
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) { in.Burn(7) }
	input := vmh.Input(vmh.Alice, "callBack", gas, []byte{0})
	input.CallType = vmcommon.AsynchronousCallBack
	input.CallerAddr = vmh.Far
	input.GasLocked = locked
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	if send == 0 {
		nd.Assert((out.ReturnCode == vmcommon.Ok) == (gas+locked >= 5+c1), "a callback succeeds exactly if the gas provided and the gas locked for it pay it")
	}
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
		conserved(out, gas+locked, "callback")
		nd.Assert(out.OutputAccounts[string(vmh.Alice)].GasUsed >= 5+c1, "the callback pays for itself")
	} else {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed transaction returns no gas")
	}
}

// G01_Deploy deploys a contract whose constructor may make a nested call.
func G01_Deploy() {
	gas, i1 := uint64(nd.U16("gas")), uint64(nd.U16("i1"))
	e := vmh.NewEnv(vmh.Opt{})
	step := nd.Choice("step", 5)
	e.W.NewAddr = vmh.New
	code := []byte("NEWC")
	c := &vmh.Contract{Code: code, Funcs: map[string]func(*vmh.Inst){}}
	e.W.Contracts = append(e.W.Contracts, c)
	c.Funcs["init"] = func(in *vmh.Inst) {
		in.Burn(i1)
		switch step {
		case 1:
			in.Nested(vmh.Dest, int64(nd.U16("limit")), vmh.Bob, vmh.Zero32(), "g")
		case 2:
			in.Nested(vmh.Same, int64(nd.U16("limit")), vmh.Bob, vmh.Zero32(), "g")
		case 3:
			in.Nested(vmh.TransferExec, int64(nd.U16("limit")), vmh.Bob, vmh.Zero32(), "g")
		case 4:
			in.Async(vmh.Far, vmh.Zero32(), []byte("g"))
		}
		in.Do(func() {})
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) { in.Burn(7) }
	out, err := e.H.RunSmartContractCreate(vmh.CreateInput(code, []byte{5, 2}, gas))
	vmh.NoCrash(out, err)
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("ok")
		conserved(out, gas, "deployment")
	} else {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed deployment returns no gas")
	}
}
