package vmh

import (
	"bytes"
	"math/big"

	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// Who says on whose behalf code runs: the address it acts as and the address
// its storage belongs to (they differ in same-context calls).
type Who struct {
	Self, Stor []byte
}

// As is the ordinary case.
func As(addr []byte) Who { return Who{addr, addr} }

// The kinds of effects.
const (
	EffStore = iota
	EffTransfer
	EffFinish
	EffLog
	EffNone
	EffCreate
	EffBuiltin
	EffErase
	EffDeploy // as EffCreate, never failing
)

// NewCode is the code EffCreate deploys; NewMeta its metadata.
var (
	NewCode = []byte("NNNN")
	NewMeta = []byte{1, 2}
)

// Claim is the built-in function EffBuiltin calls.
const Claim = "ClaimDeveloperRewards"

// WithCreate prepares the world for EffCreate.
func (e *Env) WithCreate() {
	e.W.Derive = true
	e.W.Contracts = append(e.W.Contracts, &Contract{Code: NewCode, Funcs: map[string]func(*Inst){
		"init": func(in *Inst) {
			in.Store([]byte("i"), []byte("v"))
			if len(in.W.Host.Runtime().Arguments()) > 0 {
				in.Trap()
			}
		},
	}})
}

// WithBuiltin prepares the world for EffBuiltin: a function that pays the
// caller the amount given, reports the payment and writes a log entry.
func (e *Env) WithBuiltin() {
	e.W.Builtins = append(e.W.Builtins, Claim)
	e.W.Builtin = func(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		v := new(big.Int).SetBytes(input.Arguments[0])
		return &vmcommon.VMOutput{
			ReturnCode:   vmcommon.Ok,
			GasRemaining: input.GasProvided,
			GasRefund:    big.NewInt(0),
			OutputAccounts: map[string]*vmcommon.OutputAccount{string(input.CallerAddr): {
				Address: input.CallerAddr, BalanceDelta: new(big.Int).Set(v),
				OutputTransfers: []vmcommon.OutputTransfer{{Value: new(big.Int).Set(v), SenderAddress: input.RecipientAddr}},
			}},
			Logs: []*vmcommon.LogEntry{{Identifier: []byte(Claim), Address: input.RecipientAddr}},
		}, nil
	}
}

// Effect makes one effect through the API and in the model.
func (m *Model) Effect(in *Inst, kind int, tag string, w Who) {
	if in.Stopped() {
		return
	}
	switch kind {
	case EffStore:
		k := []byte{'k', byte('0' + nd.Choice(tag+".key", 2))}
		v := nd.Bytes(tag+".val", 1)
		if in.Store(k, v) >= 0 {
			m.Put(w.Stor, k, v)
		}
	case EffTransfer:
		v, b := Value(tag + ".value")
		d := nd.Bytes(tag+".data", 1)
		to := Carol
		if m.Balance(w.Self).Cmp(v) >= 0 {
			r := in.Transfer(to, b, d)
			nd.Assert(r == 0, "a transfer of value the sender holds succeeds")
			m.Move(w.Self, to, v)
			m.Acc(to).Xfers = append(m.Acc(to).Xfers, MXfer{w.Self, v, d})
		} else {
			nd.Assume(false)
		}
	case EffFinish:
		d := nd.Bytes(tag+".ret", 1)
		in.Finish(d)
		m.Ret = append(m.Ret, d)
	case EffLog:
		t := nd.Bytes(tag+".topic", 1)
		d := nd.Bytes(tag+".logdata", 1)
		in.Log([][]byte{t}, d)
		m.Logs = append(m.Logs, MLog{w.Self, [][]byte{t}, d})
	case EffErase:
		k := []byte{'k', byte('0' + nd.Choice(tag+".key", 2))}
		if in.Store(k, nil) >= 0 {
			m.Put(w.Stor, k, nil)
		}
	case EffCreate, EffDeploy:
		v, b := int64(nd.U8(tag+".endowment")), Zero32()
		b[31] = byte(v)
		nonce := m.Nonce(w.Self)
		var args [][]byte
		if kind == EffCreate && nd.Bool(tag+".init fails") {
			args = [][]byte{{1}}
		}
		r, addr := in.Create(1<<20, b, NewCode, NewMeta, args...)
		nd.Assert((r == 0) == (len(args) == 0), "a deployment succeeds exactly if its initialisation does")
		if len(args) > 0 {
			return
		}
		nd.Assert(bytes.Equal(addr, Derived(w.Self, nonce)), "a deployment gets the address of the creator's current nonce")
		m.Move(w.Self, addr, big.NewInt(v))
		m.Put(addr, []byte("i"), []byte("v"))
		n := m.Acc(addr)
		n.Code, n.Meta, n.Owner = NewCode, NewMeta, w.Self
		m.Acc(w.Self).Made++
	case EffBuiltin:
		v := big.NewInt(int64(nd.U8(tag + ".reward")))
		_, err := in.HostDest(Carol, big.NewInt(0), Claim, 1<<20, v.Bytes())
		nd.Assert(err == nil, "a call of a built-in function succeeds")
		m.Receive(w.Self, v)
		m.Acc(w.Self).Xfers = append(m.Acc(w.Self).Xfers, MXfer{Carol, v, nil})
		m.Logs = append(m.Logs, MLog{Carol, [][]byte{[]byte(Claim)}, nil})
		m.Journal++
	}
}

// AnyEffect makes one of the first n kinds of effects.
func (m *Model) AnyEffect(in *Inst, n int, tag string, w Who) {
	m.Effect(in, nd.Choice(tag+".kind", n), tag, w)
}

// Failures of a contract.
const (
	FailSignal = iota
	FailTrap
	FailGas
	FailTransfer
)

// FailWith ends the contract in one way.
func (in *Inst) FailWith(kind int) {
	switch kind {
	case FailSignal:
		in.Signal([]byte("err"))
	case FailTrap:
		in.Trap()
	case FailGas:
		in.Burn(^uint64(0))
		in.Do(func() {})
	case FailTransfer:
		b := make([]byte, 32)
		b[0] = 1
		in.Transfer(Carol, b, nil)
	}
}

// BigOf is a small integer.
func BigOf(v int64) *big.Int { return big.NewInt(v) }
