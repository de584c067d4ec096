package deployh

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// The ways a contract asks for an upgrade; below six they are nested calls.
const (
	uAsync = 6 + iota
	uAPI
	uFrom
	nUps
)

var source = vmh.Addr(5, 's')

// ask makes the request; the answer is known at once for nested calls only.
func ask(in *vmh.Inst, way int, to, code, meta []byte, args ...[]byte) int32 {
	switch way {
	case uAsync:
		in.Async(to, vmh.Zero32(), vmh.UpgradeData(code, meta, args...))
	case uAPI:
		in.Upgrade(part, to, vmh.Zero32(), code, meta, args...)
	case uFrom:
		in.UpgradeFrom(part, to, vmh.Zero32(), source, meta, args...)
	default:
		return in.Nested(way, part, to, vmh.Zero32(), "upgradeContract", append([][]byte{code, meta}, args...)...)
	}
	return 0
}

// unchanged asserts that nothing of an account's code is reported.
func unchanged(out *vmcommon.VMOutput, addr []byte) {
	oa := out.OutputAccounts[string(addr)]
	if oa == nil {
		return
	}
	nd.Assert(len(oa.Code) == 0, "without a permitted and successful upgrade the code stays")
	nd.Assert(len(oa.CodeMetadata) == 0, "without a permitted and successful upgrade the metadata stays")
	nd.Assert(len(oa.CodeDeployerAddress) == 0, "without a permitted and successful upgrade the owner stays")
}

// installed asserts that an account's new code is reported exactly.
func installedAs(out *vmcommon.VMOutput, addr, code, meta, owner []byte) {
	oa := out.OutputAccounts[string(addr)]
	if oa == nil {
		nd.Fail("a successful upgrade is reported")
		return
	}
	nd.Assert(bytes.Equal(oa.Address, addr), "the upgraded contract keeps its address")
	nd.Assert(bytes.Equal(oa.Code, code), "an upgrade installs exactly the given code")
	nd.Assert(bytes.Equal(oa.CodeMetadata, meta), "an upgrade installs exactly the given metadata")
	nd.Assert(bytes.Equal(oa.CodeDeployerAddress, owner), "the owner stays the one who asked")
}

// D02_Who lets A ask for an upgrade of B.
func D02_Who() {
	e, c, inits := newEnv(vmh.Opt{})
	e.W.Add(&vmh.Account{Addr: source, Code: newCode, CodeHash: []byte{0x80, 's'}})
	fails := nd.Choice("init fails", 3)
	c.Funcs["init"] = func(in *vmh.Inst) {
		*inits++
		if fails == 1 {
			in.Trap()
		} else if fails == 2 {
			in.Signal([]byte("no"))
		}
	}
	owners := [][]byte{vmh.Alice, vmh.User, vmh.Bob, nil}
	owner := owners[nd.Choice("owner", len(owners))]
	e.AccB.Owner = owner
	e.AccB.CodeMeta = nd.Bytes("old metadata", 2)
	if nd.Bool("odd metadata") {
		e.AccB.CodeMeta = []byte{1, 0, 1}[:1+2*nd.Choice("odd", 2)]
	}
	way := nd.Choice("way", nUps)
	n := 2
	if way <= uAsync {
		n = []int{2, 0, 3}[nd.Choice("new metadata", 3)]
	}
	newMeta := nd.Bytes("new metadata", n)
	rc := int32(-1)
	e.A.Funcs["f"] = func(in *vmh.Inst) { rc = ask(in, way, vmh.Bob, newCode, newMeta) }
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)

	upgradeable := len(e.AccB.CodeMeta) == 2 && e.AccB.CodeMeta[0]&1 == 1
	allowed := upgradeable && bytes.Equal(owner, vmh.Alice)
	if way == vmh.DestByCaller && upgradeable && bytes.Equal(owner, vmh.User) {
		oa := out.OutputAccounts[string(vmh.Bob)]
		nd.Assert(oa == nil || len(oa.Code) == 0, "a contract cannot upgrade what belongs to its caller")
		return
	}
	if way == vmh.DestByCaller {
		allowed = false
	}
	if way == vmh.ReadOnly || way == vmh.Same || way == vmh.Delegate {
		// whether these may carry an upgrade is not settled here, only that
		// nothing is upgraded without permission
		oa := out.OutputAccounts[string(vmh.Bob)]
		if oa != nil && len(oa.Code) > 0 {
			nd.Reach("upgraded in place")
			nd.Assert(way != vmh.ReadOnly, "nothing is upgraded in read-only mode")
			nd.Assert(allowed && fails == 0, "code changes only with permission and success")
			installedAs(out, vmh.Bob, newCode, newMeta, vmh.Alice)
		} else {
			unchanged(out, vmh.Bob)
		}
		return
	}
	if allowed && fails == 0 {
		nd.Reach("upgraded")
		nd.Assert(out.ReturnCode == vmcommon.Ok && rc == 0, "a permitted upgrade succeeds")
		nd.Assert(*inits == 1, "initialisation runs exactly once at upgrade")
		installedAs(out, vmh.Bob, newCode, newMeta, vmh.Alice)
	} else {
		nd.Reach("refused")
		if !allowed {
			nd.Assert(*inits == 0, "the code of a refused upgrade does not run")
		}
		unchanged(out, vmh.Bob)
	}
	unchanged(out, vmh.Alice)
	unchanged(out, vmh.User)
	unchanged(out, vmh.Carol)
}

// D02_Direct upgrades by a transaction of the owner.
func D02_Direct() {
	e, c, inits := newEnv(vmh.Opt{})
	fails := nd.Choice("init fails", 4)
	c.Funcs["init"] = func(in *vmh.Inst) {
		*inits++
		switch fails {
		case 1:
			in.Trap()
		case 2:
			in.Signal([]byte("no"))
		case 3:
			in.Burn(1 << 62)
			in.Finish([]byte{1})
		}
	}
	newMeta := nd.Bytes("new metadata", nd.Choice("metadata", 4))
	args := [][]byte{newCode, newMeta, nd.Bytes("argument", 1)}
	n := nd.Choice("arguments", 4)
	var got [][]byte
	if fails == 0 {
		c.Funcs["init"] = func(in *vmh.Inst) {
			*inits++
			got = in.W.Host.Runtime().Arguments()
		}
	}
	in := vmh.Input(vmh.Bob, "upgradeContract", gas, args[:n]...)
	in.CallValue = new(big.Int).SetUint64(nd.U64("value"))
	out, err := e.Call(in)
	vmh.NoCrash(out, err)
	if n >= 2 && fails == 0 {
		nd.Reach("upgraded")
		nd.Assert(out.ReturnCode == vmcommon.Ok, "the owner's upgrade succeeds")
		nd.Assert(*inits == 1, "initialisation runs exactly once at upgrade")
		nd.Assert(len(got) == n-2, "initialisation gets exactly the arguments after code and metadata")
		if n == 3 && len(got) == 1 {
			nd.Assert(bytes.Equal(got[0], args[2]), "initialisation gets the given arguments")
		}
		installedAs(out, vmh.Bob, newCode, newMeta, vmh.User)
	} else {
		nd.Reach("failed")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "an upgrade whose initialisation fails fails")
		vmh.CheckFailed(out)
	}
}

// D02_After calls the contract before and after its upgrade in one transaction.
func D02_After() {
	o := vmh.Opt{}
	if nd.Bool("interpreted") {
		o.AOT = 1000
	}
	o.Warm = nd.Bool("warm")
	e, c, _ := newEnv(o)
	e.W.Add(&vmh.Account{Addr: source, Code: newCode, CodeHash: []byte{0x80, 's'}})
	e.AccB.Owner, e.AccB.CodeMeta = vmh.Alice, []byte{1, 0}
	if nd.Bool("compiled before") {
		e.W.Compiled = append(e.W.Compiled, vmh.KV{Key: e.AccB.CodeHash, Val: e.B.Code})
	}
	var trace []byte
	e.B.Funcs["g"] = func(in *vmh.Inst) { trace = append(trace, 'o') }
	c.Funcs["g"] = func(in *vmh.Inst) { trace = append(trace, 'n') }
	fails := nd.Bool("init fails")
	if fails {
		c.Funcs["init"] = func(in *vmh.Inst) { in.Trap() }
	}
	before := nd.Bool("called before")
	kind := nd.Choice("kind", 3)
	topFails := nd.Bool("caller fails")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		if before {
			in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "g")
		}
		in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "upgradeContract", newCode, meta)
		in.Nested([]int{vmh.TransferExec, vmh.Dest, vmh.Same}[kind], part, vmh.Bob, vmh.Zero32(), "g")
		if topFails {
			in.Trap()
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	want := ""
	if before {
		want = "o"
	}
	if fails {
		want += "o"
	} else {
		want += "n"
	}
	nd.Assert(string(trace) == want, "calls after an upgrade run the new code, and the old code after a failed one")
	for _, kv := range e.W.Compiled {
		for _, a := range e.W.Accs {
			if bytes.Equal(kv.Key, a.CodeHash) {
				nd.Assert(bytes.Equal(kv.Val, a.Code), "the compiled code kept for a contract is its own")
			}
		}
	}
	// the next transaction sees the ledger as the first one left it
	trace = nil
	want = "o"
	if out.ReturnCode == vmcommon.Ok && !fails {
		e.AccB.Code, e.AccB.CodeHash, e.AccB.CodeMeta = newCode, []byte{0x80, 'N'}, meta
		want = "n"
	}
	out, err = e.Call(vmh.Input(vmh.Bob, "g", gas))
	vmh.NoCrash(out, err)
	nd.Assert(string(trace) == want, "later transactions run the code the contract has")
	nd.Reach(want)
}

// D02_Again asks twice in one transaction.
func D02_Again() {
	e, c, inits := newEnv(vmh.Opt{})
	e.AccB.Owner, e.AccB.CodeMeta = vmh.Alice, []byte{1, 0}
	other := []byte("OOOO")
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: other, Funcs: map[string]func(*vmh.Inst){"init": func(in *vmh.Inst) {}}})
	m1 := nd.Bytes("first metadata", 2)
	m2 := nd.Bytes("second metadata", 2*nd.Choice("second metadata", 2))
	r1, r2 := int32(-1), int32(-1)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		r1 = in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "upgradeContract", newCode, m1)
		r2 = in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "upgradeContract", other, m2)
	}
	_ = c
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(r1 == 0 && *inits == 1, "the first upgrade succeeds")
	if m1[0]&1 == 1 {
		nd.Reach("still upgradeable")
		nd.Assert(r2 == 0, "the second upgrade succeeds")
		if len(m2) == 0 && len(out.OutputAccounts[string(vmh.Bob)].CodeMetadata) > 0 {
			nd.Fail("empty metadata given to a second upgrade replaces the first's")
			return
		}
		installedAs(out, vmh.Bob, other, m2, vmh.Alice)
	} else {
		nd.Reach("fixed")
		nd.Assert(r2 != 0, "a contract made non-upgradeable is not upgraded again in the same transaction")
	}
}

// D02_New lets A deploy a contract and then upgrade it or leave it.
func D02_New() {
	e, c, inits := newEnv(vmh.Opt{})
	other := []byte("OOOO")
	e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: other, Funcs: map[string]func(*vmh.Inst){"init": func(in *vmh.Inst) {}}})
	_ = c
	who := nd.Choice("asker", 2)
	r2 := int32(-1)
	ask := func(in *vmh.Inst) {
		r2 = in.Nested(vmh.TransferExec, part, vmh.New, vmh.Zero32(), "upgradeContract", other, meta)
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		rc, _ := in.Create(part, vmh.Zero32(), newCode, meta)
		nd.Assert(rc == 0, "the deployment succeeds")
		if who == 0 {
			ask(in)
		} else {
			in.Nested(vmh.TransferExec, 2*part, vmh.Bob, vmh.Zero32(), "g")
		}
	}
	e.B.Funcs["g"] = ask
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(*inits == 1, "initialisation runs once")
	if r2 == 0 {
		nd.Assert(who == 0, "a new contract is upgraded by its owner only")
		installedAs(out, vmh.New, other, meta, vmh.Alice)
	} else {
		installedAs(out, vmh.New, newCode, meta, vmh.Alice)
	}
}
