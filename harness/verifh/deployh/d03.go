package deployh

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// atNonce asserts what address was asked for.
func atNonce(e *vmh.Env, i int, creator []byte, nonce uint64) {
	if i >= len(e.W.NewAddrs) {
		nd.Fail("a deployment asks for an address")
		return
	}
	c := e.W.NewAddrs[i]
	nd.Assert(bytes.Equal(c.Creator, creator), "the address is derived from the creator")
	nd.Assert(c.Nonce == nonce, "the address is derived from the creator's nonce at that moment")
	nd.Assert(bytes.Equal(c.VMType, []byte{5, 0}), "the address carries the type of the machine")
}

// created asserts that a new account is reported exactly.
func created(out *vmcommon.VMOutput, addr, code, meta, owner []byte, value *big.Int) {
	oa := out.OutputAccounts[string(addr)]
	if oa == nil {
		nd.Fail("a successful deployment is reported")
		return
	}
	nd.Assert(bytes.Equal(oa.Address, addr), "the new account is reported at its address")
	nd.Assert(bytes.Equal(oa.Code, code), "the new account carries exactly the given code")
	nd.Assert(bytes.Equal(oa.CodeMetadata, meta), "the new account carries exactly the given metadata")
	nd.Assert(bytes.Equal(oa.CodeDeployerAddress, owner), "the new account names its creator as owner")
	nd.Assert(oa.BalanceDelta != nil && oa.BalanceDelta.Cmp(value) == 0, "the new account receives the value sent with the deployment")
}

// codes counts the accounts with code in a result.
func codes(out *vmcommon.VMOutput) int {
	n := 0
	for _, oa := range out.OutputAccounts {
		if len(oa.Code) > 0 {
			n++
		}
	}
	return n
}

// initKind gives an init function one of the ways to end.
func initKind(c *vmh.Contract, kind int, got *[][]byte) {
	c.Funcs["init"] = func(in *vmh.Inst) {
		*got = in.W.Host.Runtime().Arguments()
		switch kind {
		case 1:
			in.Trap()
		case 2:
			in.Signal([]byte("no"))
		case 3:
			in.Burn(1 << 62)
			in.Finish([]byte{1})
		case 4:
			in.Burn(1 << 62)
		default:
			in.Store([]byte("k"), []byte("v"))
			in.Finish([]byte{7})
		}
	}
}

// D03_User deploys by a transaction.
func D03_User() {
	o := vmh.Opt{}
	if nd.Bool("before V3") {
		o.V3 = 1000
	}
	e, c, _ := newEnv(o)
	e.W.Derive = true
	e.AccU.Nonce = nd.U64("nonce")
	var got [][]byte
	kind := nd.Choice("init", 5)
	initKind(c, kind, &got)
	m := nd.Bytes("metadata", nd.Choice("metadata", 4))
	var args [][]byte
	for i := nd.Choice("arguments", 3); i > 0; i-- {
		args = append(args, nd.Bytes("argument", i))
	}
	in := vmh.CreateInput(newCode, m, gas, args...)
	in.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	out, err := e.H.RunSmartContractCreate(in)
	vmh.NoCrash(out, err)
	nonce := e.AccU.Nonce
	if nonce > 0 {
		nonce--
	}
	atNonce(e, 0, vmh.User, nonce)
	nd.Assert(len(e.W.NewAddrs) == 1, "one address is asked for")
	if kind != 0 {
		nd.Reach("failed")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a deployment whose initialisation fails fails")
		vmh.CheckFailed(out)
		return
	}
	nd.Reach("deployed")
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a deployment whose initialisation succeeds succeeds")
	created(out, vmh.Derived(vmh.User, nonce), newCode, m, vmh.User, in.CallValue)
	nd.Assert(codes(out) == 1, "one new account is reported")
	if ua := out.OutputAccounts[string(vmh.User)]; ua != nil {
		nd.Assert(ua.Nonce == e.AccU.Nonce || ua.Nonce == 0, "the nonce of a user is left to the node")
	}
	nd.Assert(len(got) == len(args), "initialisation gets the given arguments")
	for i := range got {
		if i < len(args) {
			nd.Assert(bytes.Equal(got[i], args[i]), "initialisation gets the given arguments unchanged")
		}
	}
}

// D03_Contract lets a contract deploy several contracts.
func D03_Contract() {
	e, _, _ := newEnv(vmh.Opt{})
	e.W.Derive = true
	n := 2 + nd.Tier()
	start := nd.U64("nonce")
	nd.Assume(start < 1<<63)
	e.AccA.Nonce = start
	e.W.Contracts = e.W.Contracts[:3]
	kinds := make([]int, n)
	from := make([]bool, n)
	rcs := make([]int32, n)
	addrs := make([][]byte, n)
	cods := make([][]byte, n)
	metas := make([][]byte, n)
	vals := make([]*big.Int, n)
	for i := range kinds {
		kinds[i] = nd.Choice("init", 2)
		if kinds[i] == 1 {
			kinds[i] = 1 + nd.Choice("failure", 4)
		}
		from[i] = nd.Bool("from source")
		cods[i] = []byte{'N', byte('0' + i), 'N', 'N'}
		metas[i] = nd.Bytes("metadata", 2)
		c := &vmh.Contract{Code: cods[i], Funcs: map[string]func(*vmh.Inst){}}
		var got [][]byte
		initKind(c, kinds[i], &got)
		e.W.Contracts = append(e.W.Contracts, c)
		e.W.Add(&vmh.Account{Addr: vmh.Addr(5, byte('0'+i)), Code: cods[i], CodeHash: []byte{0x80, byte('0' + i)}})
	}
	e.AccA.Balance = big.NewInt(1 << 40)
	topFails := nd.Bool("caller fails")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		for i := range kinds {
			v := uint64(nd.U32("value"))
			vals[i] = new(big.Int).SetUint64(v)
			v32 := vmh.Zero32()
			v32[28], v32[29], v32[30], v32[31] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
			if from[i] {
				rcs[i], addrs[i] = in.CreateFrom(part, v32, vmh.Addr(5, byte('0'+i)), metas[i])
			} else {
				rcs[i], addrs[i] = in.Create(part, v32, cods[i], metas[i])
			}
		}
		if topFails {
			in.Trap()
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nonce := start
	good := 0
	for i := range kinds {
		atNonce(e, i, vmh.Alice, nonce)
		if kinds[i] == 0 {
			nd.Assert(rcs[i] == 0, "a deployment whose initialisation succeeds succeeds")
			nd.Assert(bytes.Equal(addrs[i], vmh.Derived(vmh.Alice, nonce)), "the contract learns the address of the new account")
			nonce++
			good++
		} else {
			nd.Assert(rcs[i] == 1, "a deployment whose initialisation fails is reported as a failure")
		}
	}
	if topFails {
		nd.Reach("failed")
		vmh.CheckFailed(out)
		return
	}
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the creator goes on after failed deployments")
	nonce = start
	for i := range kinds {
		if kinds[i] == 0 {
			nd.Reach("deployed")
			created(out, vmh.Derived(vmh.Alice, nonce), cods[i], metas[i], vmh.Alice, vals[i])
			nonce++
		}
	}
	nd.Assert(codes(out) == good, "failed deployments report no code")
	aa := out.OutputAccounts[string(vmh.Alice)]
	if good > 0 {
		nd.Assert(aa != nil && aa.Nonce == nonce, "every successful deployment raises the creator's nonce by one")
	} else {
		nd.Assert(aa == nil || aa.Nonce == start || aa.Nonce == 0, "a failed deployment leaves the creator's nonce")
	}
}

// D03_Existing deploys where there is an account already.
func D03_Existing() {
	e, _, inits := newEnv(vmh.Opt{})
	e.W.NewAddr = [][]byte{vmh.Bob, vmh.New}[nd.Choice("address", 2)]
	free := bytes.Equal(e.W.NewAddr, vmh.New)
	rc := int32(-1)
	e.A.Funcs["f"] = func(in *vmh.Inst) { rc, _ = in.Create(part, vmh.Zero32(), newCode, meta) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert((rc == 0) == free, "no contract is deployed over an existing account")
	if !free {
		nd.Reach("refused")
		nd.Assert(*inits == 0, "a refused deployment runs nothing")
		unchanged(out, vmh.Bob)
	}
}

// D03_Nested deploys inside a nested call that may fail.
func D03_Nested() {
	e, c, _ := newEnv(vmh.Opt{})
	e.W.Derive = true
	var got [][]byte
	initKind(c, 0, &got)
	e.AccB.Nonce = 5
	fails := nd.Bool("callee fails")
	after := nd.Bool("again")
	way := []int{vmh.TransferExec, vmh.Dest}[nd.Choice("way", 2)]
	if fails && way == vmh.Dest {
		return
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Create(part, vmh.Zero32(), newCode, meta)
		if fails {
			in.Trap()
		}
	}
	e.B.Funcs["h"] = func(in *vmh.Inst) { in.Create(part, vmh.Zero32(), newCode, meta) }
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(way, 3*part, vmh.Bob, vmh.Zero32(), "g")
		if after {
			in.Nested(vmh.Dest, 3*part, vmh.Bob, vmh.Zero32(), "h")
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	atNonce(e, 0, vmh.Bob, 5)
	n, next := 1, uint64(6)
	if fails {
		n, next = 0, 5
	}
	if after {
		atNonce(e, 1, vmh.Bob, next)
		n++
		next++
	}
	nd.Assert(codes(out) == n, "exactly the deployments that lasted are reported")
	for i := 0; i < n; i++ {
		created(out, vmh.Derived(vmh.Bob, uint64(5+i)), newCode, meta, vmh.Bob, big.NewInt(0))
	}
	ba := out.OutputAccounts[string(vmh.Bob)]
	if n > 0 {
		nd.Assert(ba != nil && ba.Nonce == next, "every deployment that lasted raises the creator's nonce by one")
	} else {
		nd.Assert(ba == nil || ba.Nonce == 0 || ba.Nonce == 5, "a deployment that was undone leaves the creator's nonce")
	}
	nd.Reach("done")
}

// D03_Reentrant deploys again while the first deployment is running.
func D03_Reentrant() {
	e, c, _ := newEnv(vmh.Opt{})
	e.W.Derive = true
	e.AccA.Nonce = 5
	inner := []byte("OOOO")
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: inner, Funcs: map[string]func(*vmh.Inst){"init": func(in *vmh.Inst) {}}})
	r1, r2 := int32(-1), int32(-1)
	var a1, a2 []byte
	c.Funcs["init"] = func(in *vmh.Inst) {
		in.Nested(vmh.Dest, 3*part, vmh.Alice, vmh.Zero32(), "g")
	}
	e.A.Funcs["g"] = func(in *vmh.Inst) { r2, a2 = in.Create(part, vmh.Zero32(), inner, meta) }
	e.A.Funcs["f"] = func(in *vmh.Inst) { r1, a1 = in.Create(9*part, vmh.Zero32(), newCode, meta) }
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if r1 == 0 && r2 == 0 {
		nd.Assert(!bytes.Equal(a1, a2), "a deployment made during another one gets an address of its own")
	}
}
