package ipch

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// P01_HookBytes: questions answered with bytes.
func P01_HookBytes() {
	h := &hook{World: vmh.NewWorld(), out: nd.BytesUpTo("out", 2), err: failure()}
	a, k, n := nd.BytesUpTo("a", 2), nd.BytesUpTo("k", 1), nd.U64("n")
	which := nd.Choice("which", 3)
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		var out []byte
		var err error
		switch which {
		case 0:
			out, err = g.NewAddress(a, n, k)
			nd.Assert(bytes.Equal(h.b1, a) && bytes.Equal(h.b2, k) && h.n == n, "NewAddress asks about the same creator, nonce and machine type")
		case 1:
			out, err = g.GetStorageData(a, k)
			nd.Assert(bytes.Equal(h.b1, a) && bytes.Equal(h.b2, k), "GetStorageData asks about the same account and key")
		case 2:
			out, err = g.GetBlockhash(n)
			nd.Assert(h.n == n, "GetBlockhash asks about the same nonce")
		}
		nd.Assert(h.calls == 1, "the question reaches the node once")
		nd.Assert(bytes.Equal(out, h.out), "the answer is the node's")
		nd.Assert(sameErr(err, h.err), "the error is the node's")
	})
}

// P01_HookNumbers: the block's data.
func P01_HookNumbers() {
	h := &hook{World: vmh.NewWorld(), out: nd.BytesUpTo("out", 2), num: nd.U64("num")}
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		nd.Assert(g.LastNonce() == h.num+1, "LastNonce")
		nd.Assert(g.LastRound() == h.num+2, "LastRound")
		nd.Assert(g.LastTimeStamp() == h.num+3, "LastTimeStamp")
		nd.Assert(bytes.Equal(g.LastRandomSeed(), h.out), "LastRandomSeed")
		nd.Assert(g.LastEpoch() == uint32(h.num+4), "LastEpoch")
		nd.Assert(bytes.Equal(g.GetStateRootHash(), append([]byte{1}, h.out...)), "GetStateRootHash")
		nd.Assert(g.CurrentNonce() == h.num+5, "CurrentNonce")
		nd.Assert(g.CurrentRound() == h.num+6, "CurrentRound")
		nd.Assert(g.CurrentTimeStamp() == h.num+7, "CurrentTimeStamp")
		nd.Assert(bytes.Equal(g.CurrentRandomSeed(), append([]byte{2}, h.out...)), "CurrentRandomSeed")
		nd.Assert(g.CurrentEpoch() == uint32(h.num+8), "CurrentEpoch")
		nd.Assert(h.calls == 11, "each question reaches the node once")
	})
}

// P01_HookAddress: what the node knows about an address.
func P01_HookAddress() {
	h := &hook{World: vmh.NewWorld(), num: uint64(nd.U32("num")), yes: nd.Bool("yes"), err: failure()}
	a := nd.BytesUpTo("a", 2)
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		nd.Assert(g.GetShardOfAddress(a) == uint32(h.num) && bytes.Equal(h.b1, a), "GetShardOfAddress")
		h.b1 = nil
		nd.Assert(g.IsSmartContract(a) == h.yes && bytes.Equal(h.b1, a), "IsSmartContract")
		h.b1 = nil
		yes, err := g.IsPayable(a)
		nd.Assert(yes == h.yes && bytes.Equal(h.b1, a), "IsPayable")
		nd.Assert(sameErr(err, h.err), "the error is the node's")
		nd.Assert(h.calls == 3, "each question reaches the node once")
	})
}

// P01_HookCode: the cache of compiled code.
func P01_HookCode() {
	h := &hook{World: vmh.NewWorld(), out: nd.BytesUpTo("out", 2), yes: nd.Bool("yes")}
	a, c := nd.BytesUpTo("hash", 2), nd.BytesUpTo("code", 1)
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		g.SaveCompiledCode(a, c)
		nd.Assert(h.calls == 1 && bytes.Equal(h.b1, a) && bytes.Equal(h.b2, c), "SaveCompiledCode stores the same code under the same hash")
		h.b1 = nil
		found, code := g.GetCompiledCode(a)
		nd.Assert(h.calls == 2 && bytes.Equal(h.b1, a), "GetCompiledCode asks about the same hash")
		nd.Assert(found == h.yes && bytes.Equal(code, h.out), "GetCompiledCode gives the node's answer")
	})
}

// P01_HookClear: dropping the cache.
func P01_HookClear() {
	h := &hook{World: vmh.NewWorld(), num: nd.U64("num")}
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		g.ClearCompiledCodes()
		nd.Assert(h.calls == 1, "ClearCompiledCodes reaches the node")
		nd.Assert(g.CurrentNonce() == h.num+5, "the dialogue goes on")
	})
}

// P01_HookSnapshot: snapshots of the node's state.
func P01_HookSnapshot() {
	h := &hook{World: vmh.NewWorld(), snap: int(nd.I64("snap")), err: failure()}
	s := int(nd.I64("revert"))
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		nd.Assert(g.GetSnapshot() == h.snap, "GetSnapshot gives the node's answer")
		err := g.RevertToSnapshot(s)
		nd.Assert(h.calls == 2 && h.n == uint64(int64(s)), "RevertToSnapshot goes back to the same snapshot")
		nd.Assert(sameErr(err, h.err), "a failed revert is reported")
	})
}

func sameAccount(a, b vmcommon.UserAccountHandler) bool {
	return a.GetNonce() == b.GetNonce() &&
		a.GetBalance().Cmp(b.GetBalance()) == 0 &&
		bytes.Equal(a.GetCodeHash(), b.GetCodeHash()) &&
		bytes.Equal(a.GetRootHash(), b.GetRootHash()) &&
		bytes.Equal(a.AddressBytes(), b.AddressBytes()) &&
		a.GetDeveloperReward().Cmp(b.GetDeveloperReward()) == 0 &&
		bytes.Equal(a.GetOwnerAddress(), b.GetOwnerAddress()) &&
		bytes.Equal(a.GetUserName(), b.GetUserName()) &&
		bytes.Equal(a.GetCodeMetadata(), b.GetCodeMetadata())
}

func anyAccount() *common.Account {
	a := &common.Account{
		Nonce: nd.U64("nonce"), Balance: nd.BigSigned("balance", 40), CodeHash: nd.Bytes("codehash", 2), RootHash: nd.Bytes("roothash", 1),
		Address: nd.Bytes("address", 2), DeveloperReward: nd.Big("reward", 40), OwnerAddress: nd.Bytes("owner", 2),
		UserName: nd.Bytes("username", 1), CodeMetadata: nd.Bytes("metadata", 2),
	}
	if nd.Bool("nils") {
		a.Balance, a.DeveloperReward = nil, nil
	}
	return a
}

// P01_HookAccount: accounts both ways.
func P01_HookAccount() {
	acc := anyAccount()
	h := &hook{World: vmh.NewWorld(), user: acc, out: nd.BytesUpTo("out", 1), err: failure()}
	q := nd.BytesUpTo("q", 2)
	missing := nd.Bool("missing")
	if missing {
		h.user = nil
	}
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		r, err := g.GetUserAccount(q)
		nd.Assert(h.calls == 1 && bytes.Equal(h.b1, q), "GetUserAccount asks about the same address")
		nd.Assert(sameErr(err, h.err), "the error is the node's")
		if err == nil {
			nd.Assert((r == nil || r.IsInterfaceNil()) == missing, "an account exists on both sides or on neither")
			if !missing && r != nil {
				nd.Assert(sameAccount(r, acc), "the account is the node's")
			}
		}
		code := g.GetCode(acc)
		nd.Assert(h.calls == 2 && sameAccount(h.asked, acc), "GetCode asks about the same account")
		nd.Assert(bytes.Equal(code, h.out), "the code is the node's")
	})
}

// P01_HookMaps: maps of names and of storage.
func P01_HookMaps() {
	k1, k2 := nd.StringUpTo("k1", 2), nd.String("k2", 1)
	nd.Assume(k1 != k2)
	v1, v2 := nd.Bytes("v1", 1), nd.Bytes("v2", 2)
	h := &hook{World: vmh.NewWorld(), state: map[string][]byte{k1: v1, k2: v2}, err: failure()}
	f1, f2 := ascii("f1", 2), ascii("f2", 1)
	h.names = vmcommon.FunctionNames{f1: {}, f2: {}}
	q := nd.Bytes("q", 1)
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		st, err := g.GetAllState(q)
		nd.Assert(bytes.Equal(h.b1, q), "GetAllState asks about the same account")
		nd.Assert(sameErr(err, h.err), "the error is the node's")
		if err == nil {
			nd.Assert(len(st) == 2 && bytes.Equal(st[k1], v1) && bytes.Equal(st[k2], v2), "the state is the node's")
		}
		names := g.GetBuiltinFunctionNames()
		_, has1 := names[f1]
		_, has2 := names[f2]
		nd.Assert(len(names) == 2 && has1 && has2, "the names are the node's")
		nd.Assert(h.calls == 2, "each question reaches the node once")
	})
}

// P01_HookToken: tokens.
func P01_HookToken() {
	t := &esdt.ESDigitalToken{Type: nd.U32("type"), Value: nd.BigSigned("value", 40), Properties: nd.BytesUpTo("props", 1), Reserved: nd.Bytes("reserved", 1)}
	if nd.Bool("meta") {
		t.TokenMetaData = &esdt.MetaData{
			Nonce: nd.U64("metanonce"), Name: nd.Bytes("name", 1), Creator: nd.Bytes("creator", 1), Royalties: nd.U32("royalties"),
			Hash: nd.Bytes("hash", 1), URIs: [][]byte{nd.Bytes("uri1", 1), nd.Bytes("uri2", 2)}, Attributes: nd.Bytes("attr", 1),
		}
	}
	h := &hook{World: vmh.NewWorld(), token: t, err: failure()}
	a, id, n := nd.Bytes("a", 2), nd.Bytes("id", 2), nd.U64("n")
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		r, err := g.GetESDTToken(a, id, n)
		nd.Assert(h.calls == 1 && bytes.Equal(h.b1, a) && bytes.Equal(h.b2, id) && h.n == n, "GetESDTToken asks about the same account, token and nonce")
		nd.Assert(sameErr(err, h.err), "the error is the node's")
		if err != nil {
			return
		}
		nd.Assert(r != nil && r.Type == t.Type && sameBig(r.Value, t.Value) && bytes.Equal(r.Properties, t.Properties) && bytes.Equal(r.Reserved, t.Reserved), "the token is the node's")
		if r == nil {
			return
		}
		nd.Assert((r.TokenMetaData == nil) == (t.TokenMetaData == nil), "metadata on both sides or on neither")
		if r.TokenMetaData != nil && t.TokenMetaData != nil {
			x, y := r.TokenMetaData, t.TokenMetaData
			nd.Assert(x.Nonce == y.Nonce && bytes.Equal(x.Name, y.Name) && bytes.Equal(x.Creator, y.Creator) && x.Royalties == y.Royalties &&
				bytes.Equal(x.Hash, y.Hash) && sameList(x.URIs, y.URIs) && bytes.Equal(x.Attributes, y.Attributes), "the metadata is the node's")
		}
	})
}

func sameInput(x, y *vmcommon.VMInput) bool {
	if len(x.ESDTTransfers) != len(y.ESDTTransfers) {
		return false
	}
	for i := range x.ESDTTransfers {
		a, b := x.ESDTTransfers[i], y.ESDTTransfers[i]
		if !sameBig(a.ESDTValue, b.ESDTValue) || !bytes.Equal(a.ESDTTokenName, b.ESDTTokenName) || a.ESDTTokenType != b.ESDTTokenType || a.ESDTTokenNonce != b.ESDTTokenNonce {
			return false
		}
	}
	return bytes.Equal(x.CallerAddr, y.CallerAddr) && sameList(x.Arguments, y.Arguments) && sameBig(x.CallValue, y.CallValue) &&
		x.CallType == y.CallType && x.GasPrice == y.GasPrice && x.GasProvided == y.GasProvided && x.GasLocked == y.GasLocked &&
		bytes.Equal(x.OriginalTxHash, y.OriginalTxHash) && bytes.Equal(x.CurrentTxHash, y.CurrentTxHash) && bytes.Equal(x.PrevTxHash, y.PrevTxHash) &&
		x.ReturnCallAfterError == y.ReturnCallAfterError
}

func anyInput() vmcommon.VMInput {
	return vmcommon.VMInput{
		CallerAddr: nd.Bytes("caller", 2), Arguments: [][]byte{nd.Bytes("arg1", 1), nd.BytesUpTo("arg2", 1)}, CallValue: nd.BigSigned("callvalue", 40),
		CallType: vmcommon.CallType(nd.U8("calltype")), GasPrice: nd.U64("gasprice"), GasProvided: nd.U64("gasprovided"), GasLocked: nd.U64("gaslocked"),
		OriginalTxHash: nd.Bytes("origtx", 1), CurrentTxHash: nd.Bytes("currtx", 2), PrevTxHash: nd.Bytes("prevtx", 1),
		ESDTTransfers: []*vmcommon.ESDTTransfer{
			{ESDTValue: nd.Big("esdtvalue", 40), ESDTTokenName: nd.Bytes("esdtname", 1), ESDTTokenType: nd.U32("esdttype"), ESDTTokenNonce: nd.U64("esdtnonce")},
			{ESDTValue: big.NewInt(1), ESDTTokenName: nd.Bytes("esdtname2", 1)},
		},
		ReturnCallAfterError: nd.Bool("returnafter"),
	}
}

// anyOutput is a result with every field in use.
func anyOutput(txt string) *vmcommon.VMOutput {
	a1, a2 := nd.String("acc1", 2), nd.String("acc2", 1)
	o1, o2 := nd.String("off1", 2), nd.String("off2", 1)
	return &vmcommon.VMOutput{
		ReturnData: [][]byte{nd.Bytes("ret1", 1), nd.Bytes("ret2", 2)}, ReturnCode: vmcommon.ReturnCode(nd.U8("code")), ReturnMessage: txt,
		GasRemaining: nd.U64("gasremaining"), GasRefund: nd.Big("gasrefund", 40),
		DeletedAccounts: [][]byte{nd.Bytes("deleted", 2)}, TouchedAccounts: [][]byte{nd.Bytes("touched", 1), nd.Bytes("touched2", 1)},
		Logs: []*vmcommon.LogEntry{
			{Identifier: nd.Bytes("logid", 1), Address: nd.Bytes("logaddr", 2), Topics: [][]byte{nd.Bytes("topic1", 1), nd.Bytes("topic2", 1)}, Data: nd.Bytes("logdata", 1)},
			{Identifier: nd.Bytes("logid2", 1)},
		},
		OutputAccounts: map[string]*vmcommon.OutputAccount{
			a1: {
				Address: []byte(a1), Nonce: nd.U64("nonce"), Balance: nd.Big("balance", 40), BalanceDelta: nd.BigSigned("delta", 40),
				StorageUpdates: map[string]*vmcommon.StorageUpdate{
					o1: {Offset: []byte(o1), Data: nd.Bytes("data1", 1)},
					o2: {Offset: []byte(o2), Data: nd.Bytes("data2", 2)},
				},
				Code: nd.Bytes("code", 2), CodeMetadata: nd.Bytes("codemeta", 2), CodeDeployerAddress: nd.Bytes("deployer", 2), GasUsed: nd.U64("gasused"),
				OutputTransfers: []vmcommon.OutputTransfer{
					{Value: nd.BigSigned("tvalue", 40), GasLimit: nd.U64("tgas"), GasLocked: nd.U64("tlocked"), Data: nd.Bytes("tdata", 2), CallType: vmcommon.CallType(nd.U8("ttype")), SenderAddress: nd.Bytes("tsender", 2)},
					{Value: big.NewInt(5), GasLimit: nd.U64("tgas2"), Data: nd.Bytes("tdata2", 1)},
				},
			},
			a2: {Address: []byte(a2), BalanceDelta: nd.BigSigned("delta2", 40), GasUsed: nd.U64("gasused2")},
		},
	}
}

func sameOutput(x, y *vmcommon.VMOutput) {
	nd.Assert(x.ReturnCode == y.ReturnCode && x.ReturnMessage == y.ReturnMessage && sameList(x.ReturnData, y.ReturnData), "same return data, code and message")
	nd.Assert(x.GasRemaining == y.GasRemaining && sameBig(x.GasRefund, y.GasRefund), "same gas and refund")
	nd.Assert(sameList(x.DeletedAccounts, y.DeletedAccounts) && sameList(x.TouchedAccounts, y.TouchedAccounts), "same deleted and touched accounts")
	nd.Assert(len(x.Logs) == len(y.Logs), "same number of logs")
	for i := range x.Logs {
		a, b := x.Logs[i], y.Logs[i]
		nd.Assert(bytes.Equal(a.Identifier, b.Identifier) && bytes.Equal(a.Address, b.Address) && bytes.Equal(a.Data, b.Data) && sameList(a.Topics, b.Topics), "same logs in the same order")
	}
	nd.Assert(len(x.OutputAccounts) == len(y.OutputAccounts), "same number of accounts")
	for k, a := range x.OutputAccounts {
		b := y.OutputAccounts[k]
		if b == nil {
			nd.Fail("an account is missing")
			return
		}
		nd.Assert(bytes.Equal(a.Address, b.Address) && a.Nonce == b.Nonce && sameBig(a.Balance, b.Balance) && sameBig(a.BalanceDelta, b.BalanceDelta) && a.GasUsed == b.GasUsed, "same nonce, balance and gas of an account")
		nd.Assert(bytes.Equal(a.Code, b.Code) && bytes.Equal(a.CodeMetadata, b.CodeMetadata) && bytes.Equal(a.CodeDeployerAddress, b.CodeDeployerAddress), "same code of an account")
		nd.Assert(len(a.StorageUpdates) == len(b.StorageUpdates), "same number of storage updates")
		for o, u := range a.StorageUpdates {
			v := b.StorageUpdates[o]
			if v == nil {
				nd.Fail("a storage update is missing")
				return
			}
			nd.Assert(bytes.Equal(u.Offset, v.Offset) && bytes.Equal(u.Data, v.Data), "same storage updates")
		}
		nd.Assert(len(a.OutputTransfers) == len(b.OutputTransfers), "same number of transfers")
		for i := range a.OutputTransfers {
			t, u := a.OutputTransfers[i], b.OutputTransfers[i]
			nd.Assert(sameBig(t.Value, u.Value) && t.GasLimit == u.GasLimit && t.GasLocked == u.GasLocked && bytes.Equal(t.Data, u.Data) && t.CallType == u.CallType && bytes.Equal(t.SenderAddress, u.SenderAddress), "same transfers in the same order")
		}
	}
}

// P01_WireForm: a result turned into its wire form and back.
func P01_WireForm() {
	o := anyOutput(nd.StringUpTo("msg", 2))
	r := common.NewSerializableVMOutput(o).ConvertToVMOutput()
	sameOutput(o, r)
	r = common.NewSerializableVMOutput(nil).ConvertToVMOutput()
	nd.Assert(r != nil && len(r.OutputAccounts) == 0 && r.GasRemaining == 0 && len(r.ReturnData) == 0, "no result is an empty result")
	nd.Reach("end")
}

// P01_HookBuiltin: built-in functions run by the node.
func P01_HookBuiltin() {
	in := &vmcommon.ContractCallInput{VMInput: anyInput(), RecipientAddr: nd.Bytes("recipient", 2), Function: ascii("function", 2), AllowInitFunction: nd.Bool("allowinit")}
	h := &hook{World: vmh.NewWorld(), builtinOut: anyOutput(ascii("msg", 2))}
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		out, err := g.ProcessBuiltInFunction(in)
		nd.Assert(h.calls == 1, "the call reaches the node once")
		nd.Assert(err == nil, "no error")
		if h.calls != 1 || err != nil {
			return
		}
		nd.Assert(sameInput(&h.builtinIn.VMInput, &in.VMInput) && bytes.Equal(h.builtinIn.RecipientAddr, in.RecipientAddr) && h.builtinIn.Function == in.Function && h.builtinIn.AllowInitFunction == in.AllowInitFunction, "the node runs the same call")
		sameOutput(h.builtinOut, out)
	})
}

// P01_HookBuiltinError: a built-in function that fails.
func P01_HookBuiltinError() {
	h := &hook{World: vmh.NewWorld(), err: failure()}
	if h.err == nil || nd.Bool("withoutput") {
		h.builtinOut = &vmcommon.VMOutput{GasRemaining: nd.U64("gas")}
	}
	dialogue(h, func(g *arwenpart.BlockchainHookGateway) {
		out, err := g.ProcessBuiltInFunction(vmh.Input(vmh.Alice, "f", 10))
		nd.Assert(sameErr(err, h.err), "the error is the node's")
		if h.builtinOut != nil {
			nd.Assert(out != nil && out.GasRemaining == h.builtinOut.GasRemaining, "the result is the node's")
		}
	})
}
