// Package deployh checks deployments, upgrades and the life of instances.
package deployh

import (
	"bytes"
	"math/big"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

const gas = uint64(1) << 40
const part = int64(1) << 32

var zero = big.NewInt(0)

var meta = []byte{5, 0}
var newCode = []byte("NNNN")

// The ways code gets into an account.
const (
	rCreate = iota
	rUpgrade
	rNested
	rNestedFrom
	rNestedUpgrade
	rAsyncUpgrade
	rAsyncUpgradeFrom
	nRoutes
)

// install brings the new code in and tells whether it was reported as
// installed and whether the request was reported as a success.
func install(e *vmh.Env, route int) (installed, ok bool) {
	at := vmh.Bob
	e.AccB.Owner = vmh.Alice
	e.AccB.CodeMeta = []byte{1, 0}
	src := e.W.Add(&vmh.Account{Addr: vmh.Addr(5, 's'), Code: newCode, CodeHash: []byte{0x80, 's'}})
	rc := int32(-3)
	switch route {
	case rCreate, rNested, rNestedFrom:
		at = vmh.New
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		switch route {
		case rNested:
			rc, _ = in.Create(part, vmh.Zero32(), newCode, meta)
		case rNestedFrom:
			rc, _ = in.CreateFrom(part, vmh.Zero32(), src.Addr, meta)
		case rNestedUpgrade:
			rc = in.Nested(vmh.TransferExec, part, vmh.Bob, vmh.Zero32(), "upgradeContract", newCode, meta)
		case rAsyncUpgrade:
			in.Upgrade(part, vmh.Bob, vmh.Zero32(), newCode, meta)
		case rAsyncUpgradeFrom:
			in.UpgradeFrom(part, vmh.Bob, vmh.Zero32(), src.Addr, meta)
		}
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		args := in.W.Host.Runtime().Arguments()
		if len(args) > 0 && (len(args[0]) == 0 || args[0][0] == 0) {
			rc = 0
		} else {
			rc = 1
		}
	}
	var out *vmcommon.VMOutput
	var err error
	switch route {
	case rCreate:
		out, err = e.H.RunSmartContractCreate(vmh.CreateInput(newCode, meta, gas))
	case rUpgrade:
		out, err = e.Call(vmh.Input(vmh.Bob, "upgradeContract", gas, newCode, meta))
	default:
		out, err = e.Call(vmh.Input(vmh.Alice, "f", gas))
	}
	vmh.NoCrash(out, err)
	if out == nil {
		return
	}
	ok = out.ReturnCode == vmcommon.Ok
	if route >= rNested {
		nd.Assert(ok, "a contract goes on after its deployment or upgrade request failed")
		nd.Assert(rc == 0 || rc == 1, "the contract learns whether its deployment or upgrade succeeded")
		ok = rc == 0
	}
	oa := out.OutputAccounts[string(at)]
	installed = oa != nil && len(oa.Code) > 0
	if installed {
		nd.Assert(bytes.Equal(oa.Code, newCode), "exactly the given code is installed")
	}
	for a, o := range out.OutputAccounts {
		if a != string(at) && len(o.Code) > 0 {
			nd.Fail("code is reported for no other account")
		}
	}
	return
}

func ascii(name string) bool {
	for i := 0; i < len(name); i++ {
		if name[i] >= 0x80 {
			return false
		}
	}
	return true
}

func reserved(name string) bool {
	if name == "upgradeContract" || name == "ab" {
		return true
	}
	for _, n := range apiNames {
		if n == name {
			return true
		}
	}
	return false
}

func newEnv(o vmh.Opt) (*vmh.Env, *vmh.Contract, *int) {
	o.Builtins = []string{"ab"}
	o.Inactive = []string{"cd"}
	e := vmh.NewEnv(o)
	e.W.NewAddr = vmh.New
	c := &vmh.Contract{Code: newCode, Funcs: map[string]func(*vmh.Inst){}}
	e.W.Contracts = append(e.W.Contracts, c)
	inits := new(int)
	c.Funcs["init"] = func(in *vmh.Inst) {
		*inits++
		in.Finish([]byte{9})
	}
	return e, c, inits
}

// judge deploys and compares with what the code deserves.
func judge(e *vmh.Env, inits *int, route int, valid bool) {
	installed, ok := install(e, route)
	if valid {
		nd.Reach("valid")
		nd.Assert(installed && ok, "valid code is deployed")
		nd.Assert(*inits == 1, "initialisation runs exactly once")
	} else {
		nd.Reach("invalid")
		nd.Assert(!installed, "invalid code is never deployed")
		nd.Assert(!ok, "the deployment of invalid code is reported as a failure")
		nd.Assert(*inits == 0, "invalid code never runs")
	}
}

// D01_Names exports a function with any short name.
func D01_Names() {
	e, c, inits := newEnv(vmh.Opt{})
	name := string(nd.Bytes("name", nd.Choice("length", 7)))
	nd.Assume(name != "init")
	c.Funcs[name] = func(in *vmh.Inst) { *inits++ }
	valid := len(name) > 0 && ascii(name) && !reserved(name)
	judge(e, inits, nd.Choice("route", nRoutes), valid)
}

// D01_Reserved exports a function with a long, foreign or reserved name.
func D01_Reserved() {
	e, c, inits := newEnv(vmh.Opt{})
	names := append([]string{strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("x", 300), "callBack",
		"upgradeContract", "upgradecontract", "cd", "abc", "\u00e9t\u00e9", "a b", "signalErro", "Finish"}, apiNames...)
	i := nd.Choice("name", len(names))
	name := names[i]
	c.Funcs[name] = func(in *vmh.Inst) { *inits++ }
	valid := len(name) > 0 && len(name) < 256 && ascii(name) && !reserved(name)
	route := i % nRoutes
	if i < 12 {
		route = nd.Choice("route", nRoutes)
	}
	judge(e, inits, route, valid)
}

// D01_Shape varies memory and signatures.
func D01_Shape() {
	e, c, inits := newEnv(vmh.Opt{})
	valid := true
	if nd.Bool("no memory") {
		c.NoMem = true
		valid = false
	}
	for _, f := range []string{"init", "other"} {
		if c.Funcs[f] == nil {
			c.Funcs[f] = func(in *vmh.Inst) { *inits++ }
		}
		s := wasmer.ExportedFunctionSignature{InputArity: nd.Choice("params", 3), OutputArity: nd.Choice("results", 2)}
		if s.InputArity+s.OutputArity > 0 {
			if c.Sigs == nil {
				c.Sigs = map[string]wasmer.ExportedFunctionSignature{}
			}
			c.Sigs[f] = s
			valid = false
		}
	}
	judge(e, inits, nd.Choice("route", nRoutes), valid)
}

// D01_Imports uses token operations before and after they are enabled.
func D01_Imports() {
	enabled := nd.Bool("enabled")
	o := vmh.Opt{}
	if !enabled {
		o.ESDT = 1000
	}
	e, c, inits := newEnv(o)
	names := []string{"transferESDTExecute", "transferESDTNFTExecute", "transferValueExecute", "getESDTBalance", "getESDTTokenData",
		"getESDTTokenType", "getESDTTokenNonce", "getCurrentESDTNFTNonce", "getESDTNFTNameLength", "getESDTNFTAttributeLength",
		"getESDTNFTURILength", "bigIntGetESDTExternalBalance", "finish"}
	i := nd.Choice("import", len(names))
	c.Imports = []string{"getCaller", names[i]}
	judge(e, inits, nd.Choice("route", nRoutes), enabled || names[i] == "finish")
}
