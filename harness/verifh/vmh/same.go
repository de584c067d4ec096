package vmh

import (
	"bytes"
	"math/big"

	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func sameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return (a == nil || a.Sign() == 0) && (b == nil || b.Sign() == 0)
	}
	return a.Cmp(b) == 0
}

func sameList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameOutput asserts that two results are equal.
func SameOutput(a, b *vmcommon.VMOutput, what string) {
	if (a == nil) != (b == nil) {
		nd.Fail(what + ": one run has a result and the other has none")
		return
	}
	if a == nil {
		return
	}
	nd.Assert(a.ReturnCode == b.ReturnCode, what+": same return code")
	nd.Assert(a.ReturnMessage == b.ReturnMessage, what+": same message")
	nd.Assert(a.GasRemaining == b.GasRemaining, what+": same gas")
	nd.Assert(sameBig(a.GasRefund, b.GasRefund), what+": same refund")
	nd.Assert(sameList(a.ReturnData, b.ReturnData), what+": same return data")
	nd.Assert(len(a.Logs) == len(b.Logs), what+": same logs")
	for i := range a.Logs {
		if i >= len(b.Logs) {
			break
		}
		x, y := a.Logs[i], b.Logs[i]
		nd.Assert(bytes.Equal(x.Address, y.Address) && bytes.Equal(x.Identifier, y.Identifier) && bytes.Equal(x.Data, y.Data) && sameList(x.Topics, y.Topics), what+": same log entries")
	}
	nd.Assert(len(a.OutputAccounts) == len(b.OutputAccounts), what+": same accounts")
	for addr, x := range a.OutputAccounts {
		y := b.OutputAccounts[addr]
		if y == nil {
			nd.Fail(what + ": same accounts")
			continue
		}
		nd.Assert(x.Nonce == y.Nonce && x.GasUsed == y.GasUsed, what+": same nonces and gas of accounts")
		nd.Assert(sameBig(x.BalanceDelta, y.BalanceDelta), what+": same balances")
		nd.Assert(bytes.Equal(x.Code, y.Code) && bytes.Equal(x.CodeMetadata, y.CodeMetadata) && bytes.Equal(x.CodeDeployerAddress, y.CodeDeployerAddress), what+": same code")
		nd.Assert(len(x.StorageUpdates) == len(y.StorageUpdates), what+": same storage")
		for k, u := range x.StorageUpdates {
			v := y.StorageUpdates[k]
			if v == nil {
				nd.Fail(what + ": same storage")
				continue
			}
			nd.Assert(bytes.Equal(u.Data, v.Data), what+": same storage values")
		}
		nd.Assert(len(x.OutputTransfers) == len(y.OutputTransfers), what+": same transfers")
		for i := range x.OutputTransfers {
			if i >= len(y.OutputTransfers) {
				break
			}
			t, s := x.OutputTransfers[i], y.OutputTransfers[i]
			nd.Assert(sameBig(t.Value, s.Value) && bytes.Equal(t.Data, s.Data) && t.GasLimit == s.GasLimit && t.GasLocked == s.GasLocked && t.CallType == s.CallType && bytes.Equal(t.SenderAddress, s.SenderAddress), what+": same transfer entries")
		}
	}
}
