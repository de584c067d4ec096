package nested

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// bal reads a balance through the API.
func bal(in *vmh.Inst, addr []byte) *big.Int {
	r := big.NewInt(-1)
	in.Do(func() {
		in.Put(0, addr)
		elrondapi.XBigIntGetExternalBalance(in.Ctx(), 0, 40)
		r = big.NewInt(0).Set(in.W.Host.BigInt().GetOne(40))
	})
	return r
}

// checkBals compares every balance the machine decides by with the model.
func checkBals(in *vmh.Inst, m *vmh.Model) {
	for _, a := range [][]byte{vmh.Alice, vmh.Bob, vmh.Carol} {
		if !in.Stopped() {
			nd.Assert(in.W.Host.Blockchain().GetBalanceBigInt(a).Cmp(m.Balance(a)) == 0, "a balance includes everything moved so far")
		}
	}
}

// conserved states that value moves and is not made.
func conserved(out *vmcommon.VMOutput, e *vmh.Env, in *big.Int) {
	sum := big.NewInt(0)
	for addr, a := range out.OutputAccounts {
		d := a.BalanceDelta
		if d == nil {
			continue
		}
		sum.Add(sum, d)
		if acc := e.W.Acc([]byte(addr)); acc != nil && !bytes.Equal(acc.Addr, vmh.User) {
			nd.Assert(big.NewInt(0).Add(acc.Balance, d).Sign() >= 0, "no account ends below zero")
		}
	}
	nd.Assert(sum.Cmp(in) == 0, "the balance changes add up to the value that came in")
}

func symBalance(name string) *big.Int {
	return new(big.Int).SetUint64(nd.U64(name))
}

// V01_Transfers makes two transfers of any value, with any balances.
func V01_Transfers() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Balance = symBalance("balanceA")
	cv := symBalance("callValue")
	m := vmh.NewModel(e.W)
	m.Receive(vmh.Alice, cv)
	enough := true
	tos := [][]byte{vmh.Bob, vmh.Alice, vmh.Far, vmh.User}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		for _, tag := range []string{"1", "2"} {
			to := tos[nd.Choice("to"+tag, 4)]
			v, b := vmh.Value("value" + tag)
			var d []byte
			if tag == "2" {
				d = []byte("d")
			}
			if in.Stopped() {
				return
			}
			ok := m.Move(vmh.Alice, to, v)
			r := in.Transfer(to, b, d)
			nd.Assert((r == 0) == ok, "a transfer succeeds exactly when the sender holds the value")
			if !ok {
				nd.Reach("not enough")
				nd.Assert(in.Stopped(), "a refused transfer fails the contract")
				enough = false
				return
			}
			m.Acc(to).Xfers = append(m.Acc(to).Xfers, vmh.MXfer{From: vmh.Alice, Value: v, Data: d})
			checkBals(in, m)
		}
	}
	input := vmh.Input(vmh.Alice, "f", gas)
	input.CallValue = cv
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert((out.ReturnCode == 0) == enough, "a call fails exactly when a transfer failed")
	if out.ReturnCode != 0 {
		vmh.CheckFailed(out)
		return
	}
	nd.Reach("compared")
	m.CheckBalances(out)
	m.CheckTransfers(out)
	conserved(out, e, cv)
}

// V01_Calls makes calls with value: A to B, B back to A or on to C.
func V01_Calls() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Balance = symBalance("balanceA")
	e.AccB.Balance = symBalance("balanceB")
	m := vmh.NewModel(e.W)
	cv := symBalance("callValue")
	m.Receive(vmh.Alice, cv)
	w1 := nd.Choice("way1", 3)
	w2 := nd.Choice("way2", 3)
	fail := nd.Bool("calleeFails")
	second := [][]byte{vmh.Carol, vmh.Alice}[nd.Choice("second", 2)]
	ranB, ranC := false, false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		v, b := vmh.Value("value1")
		saved := m.Clone()
		enough := m.Move(vmh.Alice, vmh.Bob, v)
		ok := callOK(in, w1, vmh.Bob, v, b, "g")
		nd.Assert(ok == (enough && !fail), "a call with value succeeds exactly when the caller holds it and the callee succeeds")
		nd.Assert(ranB == enough, "a callee runs exactly when its value could be moved")
		if !ok {
			nd.Reach("first refused")
			m.Restore(saved)
		}
		checkBals(in, m)
		nd.Assert(!in.Stopped(), "the caller goes on after a nested call")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		ranB = true
		checkBals(in, m)
		v, b := vmh.Value("value2")
		saved := m.Clone()
		enough := m.Move(vmh.Bob, second, v)
		ok := callOK(in, w2, second, v, b, "h")
		nd.Assert(ok == enough, "a nested call with value succeeds exactly when the caller holds it")
		nd.Assert(ranC == enough, "a callee runs exactly when its value could be moved")
		if !ok {
			nd.Reach("second refused")
			m.Restore(saved)
		}
		checkBals(in, m)
		if fail {
			in.Signal([]byte("no"))
		}
	}
	h := func(in *vmh.Inst) {
		ranC = true
		checkBals(in, m)
	}
	e.C.Funcs["h"] = h
	e.A.Funcs["h"] = h
	input := vmh.Input(vmh.Alice, "f", gas)
	input.CallValue = cv
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "the outer call succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.CheckBalances(out)
	conserved(out, e, cv)
}

// V01_Negative passes negative values where the host is asked directly.
func V01_Negative() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Balance = symBalance("balanceA")
	e.AccB.Balance = symBalance("balanceB")
	v := nd.BigSigned("value", 2)
	nd.Assume(v.Sign() < 0)
	way := nd.Choice("way", 4)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		h := in.W.Host
		var err error
		switch way {
		case 0:
			_, err = in.HostDest(vmh.Bob, v, "g", childGas)
		case 1:
			err = in.HostSame(vmh.Bob, v, "g", childGas)
		case 2:
			err = h.Output().TransferValueOnly(vmh.Bob, vmh.Alice, v, nd.Bool("checkPayable"))
		case 3:
			err = h.Output().Transfer(vmh.Bob, vmh.Alice, 0, 0, v, nil, vmcommon.DirectCall)
		}
		nd.Assert(err != nil, "a negative value is refused")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) { nd.Fail("a call with a negative value is not made") }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the outer call succeeds")
	for _, a := range out.OutputAccounts {
		nd.Assert(a.BalanceDelta == nil || a.BalanceDelta.Sign() == 0, "nothing moves")
		nd.Assert(len(a.OutputTransfers) == 0, "no transfer is reported")
	}
	nd.Reach("compared")
}

// V01_Create deploys a contract with value.
func V01_Create() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Balance = symBalance("balanceA")
	v := symBalance("value")
	m := vmh.NewModel(e.W)
	fail := nd.Bool("initFails")
	code := []byte("NNNN")
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: code, Funcs: map[string]func(*vmh.Inst){
		"init": func(in *vmh.Inst) {
			b := bal(in, vmh.New)
			nd.Assert(b.Cmp(v) == 0 || b.Sign() == 0, "a new contract holds the value it was given, or (known) reads as empty")
			if nd.Bool("strict") {
				nd.Assert(b.Cmp(v) == 0, "a new contract holds the value it was given")
			}
			if fail {
				in.Signal([]byte("no"))
			}
		}}})
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		saved := m.Clone()
		enough := m.Move(vmh.Alice, vmh.New, v)
		_, err := in.W.Host.CreateNewContract(&vmcommon.ContractCreateInput{
			VMInput:      vmcommon.VMInput{CallerAddr: vmh.Alice, CallValue: v, GasProvided: childGas},
			ContractCode: code, ContractCodeMetadata: []byte{1, 0},
		})
		nd.Assert((err == nil) == (enough && !fail), "a deployment with value succeeds exactly when the creator holds it and the init function succeeds")
		if err != nil {
			m.Restore(saved)
		}
		checkBals(in, m)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the outer call succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.CheckBalances(out)
	conserved(out, e, big.NewInt(0))
}

// V01_Read reads balances through the API after a transfer.
func V01_Read() {
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Balance = symBalance("balanceA")
	m := vmh.NewModel(e.W)
	who := [][]byte{vmh.Alice, vmh.Bob, vmh.Carol}[nd.Choice("who", 3)]
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		v, b := vmh.Value("value")
		nd.Assume(m.Move(vmh.Alice, vmh.Bob, v))
		in.Transfer(vmh.Bob, b, nil)
		nd.Assert(bal(in, who).Cmp(m.Balance(who)) == 0, "a balance read includes everything moved so far")
		nd.Reach("read")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the call succeeds")
}

// V01_Builtin moves value by transfers, nested calls and a built-in function.
func V01_Builtin() {
	e := vmh.NewEnv(vmh.Opt{})
	e.WithBuiltin()
	m := vmh.NewModel(e.W)
	way := nd.Choice("way", 4)
	fail := nd.Bool("callee fails")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		m.AnyEffect(in, vmh.EffTransfer+1, "before", vmh.As(vmh.Alice))
		if way == 3 {
			m.Effect(in, vmh.EffBuiltin, "own", vmh.As(vmh.Alice))
		} else {
			v, b := vmh.Value("value")
			saved := m.Clone()
			nd.Assume(m.Move(vmh.Alice, vmh.Bob, v))
			if !callOK(in, way, vmh.Bob, v, b, "g") {
				m.Restore(saved)
			}
		}
		checkBals(in, m)
		m.Effect(in, vmh.EffTransfer, "after", vmh.As(vmh.Alice))
		checkBals(in, m)
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		m.Effect(in, vmh.EffBuiltin, "callee", vmh.As(vmh.Bob))
		checkBals(in, m)
		m.Effect(in, vmh.EffTransfer, "callee", vmh.As(vmh.Bob))
		if fail {
			in.Signal([]byte("no"))
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the call succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.CheckBalances(out)
	m.CheckTransfers(out)
}
