package nested

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// roOps is the number of operations a read-only execution is refused.
const roOps = 11

// roAttempt tries to change something through the API.
func roAttempt(in *vmh.Inst, op int) {
	key, val := nd.Bytes("roKey", 1), nd.Bytes("roVal", 1)
	in.Do(func() {
		c := in.Ctx()
		in.Put(0, key)
		in.Put(1, val)
		in.Put(8, []byte("NNNN"))
		in.Put(64, vmh.Zero32())
		in.Put(100, vmh.Bob)
		switch op {
		case 0:
			nd.Assert(elrondapi.XStorageStore(c, 0, 1, 1, 1) == int32(arwen.StorageUnchanged), "a read-only write reports no change")
		case 1:
			elrondapi.XSetStorageLock(c, 0, 1, 1<<40)
		case 2:
			elrondapi.XClearStorageLock(c, 0, 1)
		case 3:
			elrondapi.XSmallIntStorageStoreUnsigned(c, 0, 1, int64(val[0]))
		case 4:
			elrondapi.XInt64storageStore(c, 0, 1, int64(val[0]))
		case 5:
			in.W.Host.BigInt().GetOne(0).SetInt64(5)
			elrondapi.XBigIntStorageStoreUnsigned(c, 0, 1, 0)
		case 6:
			elrondapi.XWriteLog(c, 0, 2, 64, 1)
		case 7:
			binary.LittleEndian.PutUint32(in.Mem.B[40:], 1)
			elrondapi.XWriteEventLog(c, 1, 40, 0, 1, 1)
		case 8:
			elrondapi.XCreateContract(c, 1<<20, 64, 8, 2, 4, 200, 0, 50, 50)
		case 9:
			elrondapi.XDeployFromSourceContract(c, 1<<20, 64, 100, 2, 200, 0, 50, 50)
		case 10:
			elrondapi.XSmallIntStorageStoreSigned(c, 0, 1, int64(val[0]))
		}
	})
}

// nothing states that the accounts are as the ledger has them.
func nothing(out *vmcommon.VMOutput, e *vmh.Env) {
	for addr, a := range out.OutputAccounts {
		acc := e.W.Acc([]byte(addr))
		for k, u := range a.StorageUpdates {
			var was []byte
			if acc != nil {
				was = acc.Get([]byte(k))
			}
			nd.Assert(bytes.Equal(u.Data, was), "a read-only execution changes no storage")
		}
		nd.Assert(a.BalanceDelta == nil || a.BalanceDelta.Sign() == 0, "a read-only execution moves no value")
		nd.Assert(len(a.OutputTransfers) == 0, "a read-only execution sends nothing")
		nd.Assert(len(a.Code) == 0 && len(a.CodeMetadata) == 0, "a read-only execution changes no code")
		nd.Assert(acc != nil || a.Nonce == 0, "a read-only execution makes no account")
		if acc != nil && a.Nonce != 0 {
			nd.Assert(a.Nonce == acc.Nonce, "a read-only execution raises no nonce")
		}
	}
	nd.Assert(len(out.Logs) == 0, "a read-only execution writes no log")
}

func newCode(e *vmh.Env) {
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: []byte("NNNN"), Funcs: map[string]func(*vmh.Inst){
		"init": func(in *vmh.Inst) { nd.Fail("a read-only execution deploys nothing") }}})
	e.B.Funcs["init"] = func(in *vmh.Inst) { nd.Fail("a read-only execution deploys nothing") }
}

// R01_Refused tries each operation, in the read-only call or in a call it makes.
func R01_Refused() {
	e := vmh.NewEnv(vmh.Opt{})
	newCode(e)
	stored := nd.Bytes("stored", 1)
	e.AccA.Put([]byte("x"), stored)
	op := nd.Choice("op", roOps)
	via := nd.Choice("via", 5)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
		if in.Stopped() {
			return
		}
		nd.Assert(!in.W.Host.Runtime().ReadOnly(), "the read-only mode ends with the read-only call")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		nd.Assert(in.W.Host.Runtime().ReadOnly(), "a read-only call runs in read-only mode")
		switch via {
		case 0:
			roAttempt(in, op)
			nd.Reach("direct")
		case 1:
			in.Nested(vmh.Dest, 1<<25, vmh.Carol, vmh.Zero32(), "h")
		case 2:
			in.Nested(vmh.Same, 1<<25, vmh.Carol, vmh.Zero32(), "h")
		case 3:
			in.Nested(vmh.TransferExec, 1<<25, vmh.Carol, vmh.Zero32(), "h")
		case 4:
			in.Nested(vmh.Delegate, 1<<25, vmh.Carol, vmh.Zero32(), "h")
			roAttempt(in, op)
		}
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		nd.Assert(in.W.Host.Runtime().ReadOnly(), "what a read-only execution calls is read-only too")
		nd.Reach("nested")
		if via != 4 {
			roAttempt(in, op)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	if op != 8 && op != 9 {
		nd.Assert(out.ReturnCode == 0, "a refused write does not fail the caller")
	}
	nothing(out, e)
}

// R01_Ends writes before and after a read-only call.
func R01_Ends() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.AnyEffect(in, 4, "before", vmh.As(vmh.Alice))
		r := in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
		nd.Assert(r == 0, "a read-only call succeeds")
		m.AnyEffect(in, 4, "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Store([]byte("k0"), []byte{9})
		in.Store([]byte("k1"), []byte{})
		in.Log([][]byte{{1}}, []byte{2})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller goes on after a read-only call")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}

// R01_AfterFailure has the enclosing contract of a failed one go on writing.
func R01_AfterFailure() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	fail := nd.Choice("failure", 4)
	same := nd.Choice("how", 2)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		var err error
		if same == 0 {
			_, err = in.HostDest(vmh.Bob, big.NewInt(0), "g", childGas)
		} else {
			err = in.HostSame(vmh.Bob, big.NewInt(0), "g", childGas)
		}
		nd.Assert(err != nil, "the failure of a read-only call fails its caller")
		nd.Assert(!in.W.Host.Runtime().ReadOnly(), "the read-only mode ends with the read-only call, failed or not")
		m.AnyEffect(in, 4, "after", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Nested(vmh.ReadOnly, 1<<25, vmh.Carol, vmh.Zero32(), "h")
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) { in.FailWith(fail) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the outer contract goes on")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.Check(out)
}

// R01_Enclosing makes a read-only call inside a read-only call.
func R01_Enclosing() {
	e := vmh.NewEnv(vmh.Opt{})
	inner := nd.Choice("inner", 5)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
		nd.Assert(!in.W.Host.Runtime().ReadOnly(), "the read-only mode ends with the read-only call")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		kinds := []int{vmh.Dest, vmh.Same, vmh.TransferExec, vmh.Delegate, vmh.ReadOnly}
		in.Nested(kinds[inner], 1<<25, vmh.Carol, vmh.Zero32(), "h")
		if inner == 4 {
			nd.Reach("read-only inside read-only")
			nd.Assert(in.W.Host.Runtime().ReadOnly(), "an enclosing read-only call stays read-only after an inner one")
			return
		}
		nd.Reach("other call inside read-only")
		nd.Assert(in.W.Host.Runtime().ReadOnly(), "a read-only call stays read-only after a nested call")
		in.Store([]byte("k"), nd.Bytes("val", 1))
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {
		nd.Assert(in.W.Host.Runtime().ReadOnly(), "what a read-only execution calls is read-only too")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the outer contract goes on")
	nothing(out, e)
}

// R01_Sending tries to send something from a read-only execution.
func R01_Sending() {
	e := vmh.NewEnv(vmh.Opt{})
	newCode(e)
	one := make([]byte, 32)
	one[31] = 1 + nd.U8("value")
	nd.Assume(one[31] != 0)
	op := nd.Choice("op", 6)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		switch op {
		case 0:
			in.Transfer(vmh.Carol, one, nil)
		case 1:
			in.Nested(vmh.TransferExec, 1<<20, vmh.Carol, one, "h")
		case 2:
			in.Nested(vmh.Dest, 1<<20, vmh.Carol, one, "h")
		case 3:
			in.Nested(vmh.Same, 1<<20, vmh.Carol, one, "h")
		case 4:
			in.Nested(vmh.TransferExec, 1<<20, vmh.Far, vmh.Zero32(), "h")
		case 5:
			in.Do(func() {
				in.Put(0, vmh.Far)
				in.Put(32, one)
				in.Put(64, []byte("h"))
				elrondapi.XAsyncCall(in.Ctx(), 0, 32, 64, 1)
			})
		}
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) {}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	moved, sent := false, false
	for _, a := range out.OutputAccounts {
		moved = moved || (a.BalanceDelta != nil && a.BalanceDelta.Sign() != 0)
		sent = sent || len(a.OutputTransfers) > 0
		nd.Assert(len(a.StorageUpdates) == 0, "a read-only execution changes no storage")
		nd.Assert(len(a.Code) == 0, "a read-only execution changes no code")
	}
	nd.Assert(len(out.Logs) == 0, "a read-only execution writes no log")
	nd.Reach("done")
	switch op {
	case 0:
		nd.Assert(!moved && !sent, "no transferValue in read-only mode")
	case 1, 2, 3:
		nd.Assert(!moved, "no value goes with a nested call in read-only mode")
	case 4:
		nd.Assert(!sent, "no call to another shard in read-only mode")
	case 5:
		nd.Assert(!moved && !sent, "no asynchronous call in read-only mode")
	}
}

// R01_CallValue makes a read-only call from a call that came with value.
func R01_CallValue() {
	e := vmh.NewEnv(vmh.Opt{})
	v := new(big.Int).SetUint64(nd.U64("value"))
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
		nd.Reach("after")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {}
	input := vmh.Input(vmh.Alice, "f", gas)
	input.CallValue = v
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller goes on after a read-only call")
	b := out.OutputAccounts[string(vmh.Bob)]
	sum := big.NewInt(0)
	for _, a := range out.OutputAccounts {
		if a.BalanceDelta != nil {
			sum.Add(sum, a.BalanceDelta)
		}
	}
	nd.Assert(sum.Cmp(v) == 0, "value is conserved by a read-only call")
	nd.Assert(b == nil || b.BalanceDelta == nil || b.BalanceDelta.Sign() == 0, "a read-only call does not take the call value of its caller along")
}

// R01_Upgrade has a read-only execution ask for the upgrade of a contract.
func R01_Upgrade() {
	e := vmh.NewEnv(vmh.Opt{})
	newCode(e)
	e.AccC.CodeMeta = []byte{5, 0}
	meta := []byte{nd.U8("meta"), 0}
	way := nd.Choice("way", 7)
	deep := nd.Bool("deeper")
	ask := func(in *vmh.Inst) {
		switch way {
		case 5:
			in.Upgrade(1<<24, vmh.Carol, vmh.Zero32(), []byte("NNNN"), meta)
		case 6:
			in.UpgradeFrom(1<<24, vmh.Carol, vmh.Zero32(), vmh.Bob, meta)
		default:
			kinds := []int{vmh.Dest, vmh.Same, vmh.TransferExec, vmh.Delegate, vmh.ReadOnly}
			in.Nested(kinds[way], 1<<24, vmh.Carol, vmh.Zero32(), "upgradeContract", []byte("NNNN"), meta)
		}
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		// a read-only call keeps its caller as the sender, so the caller owns the contract
		in.Nested(vmh.ReadOnly, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
	}
	e.AccC.Owner = []([]byte){vmh.Alice, vmh.Bob}[nd.Choice("owner", 2)]
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		if deep {
			in.Nested(vmh.Same, 1<<25, vmh.Bob, vmh.Zero32(), "h")
		} else {
			ask(in)
		}
	}
	e.B.Funcs["h"] = ask
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Reach("asked")
	for _, a := range out.OutputAccounts {
		nd.Assert(len(a.Code) == 0 && len(a.CodeMetadata) == 0, "a read-only execution changes no code")
		nd.Assert(len(a.CodeDeployerAddress) == 0, "a read-only execution changes no owner")
	}
}
