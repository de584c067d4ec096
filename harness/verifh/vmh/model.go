package vmh

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// MAcc is what the reference model knows of one account.
type MAcc struct {
	Addr  []byte
	Delta *big.Int
	Store []KV // last writes
	Xfers []MXfer
	// Made counts the contracts the account deployed.
	Made uint64
	// Code, Meta and Owner describe an account deployed in this transaction.
	Code, Meta, Owner []byte
}

// MXfer is one transfer to an account.
type MXfer struct {
	From  []byte
	Value *big.Int
	Data  []byte
}

// MLog is one log entry.
type MLog struct {
	Addr   []byte
	Topics [][]byte
	Data   []byte
}

// Model is the reference: a plain map-and-list account of what a transaction did.
type Model struct {
	W    *World
	Accs []*MAcc
	Logs []MLog
	Ret  [][]byte
	// Journal counts the ledger's own changes that last.
	Journal int
}

// NewModel starts an empty transaction.
func NewModel(w *World) *Model { return &Model{W: w} }

// Acc finds or makes the entry of an account.
func (m *Model) Acc(addr []byte) *MAcc {
	for _, a := range m.Accs {
		if bytes.Equal(a.Addr, addr) {
			return a
		}
	}
	a := &MAcc{Addr: addr, Delta: big.NewInt(0)}
	m.Accs = append(m.Accs, a)
	return a
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	c := &Model{W: m.W, Journal: m.Journal}
	for _, a := range m.Accs {
		n := &MAcc{Addr: a.Addr, Delta: a.Delta, Made: a.Made, Code: a.Code, Meta: a.Meta, Owner: a.Owner}
		n.Store = append(n.Store, a.Store...)
		n.Xfers = append(n.Xfers, a.Xfers...)
		c.Accs = append(c.Accs, n)
	}
	c.Logs = append(c.Logs, m.Logs...)
	c.Ret = append(c.Ret, m.Ret...)
	return c
}

// Restore makes the model equal to a clone.
func (m *Model) Restore(c *Model) { *m = *c.Clone() }

// Get is the current value of a key.
func (m *Model) Get(addr, key []byte) []byte {
	for _, kv := range m.Acc(addr).Store {
		if bytes.Equal(kv.Key, key) {
			return kv.Val
		}
	}
	if a := m.W.Acc(addr); a != nil {
		return a.Get(key)
	}
	return nil
}

// Put records a write.
func (m *Model) Put(addr, key, val []byte) {
	a := m.Acc(addr)
	v := append([]byte{}, val...)
	for i := range a.Store {
		if bytes.Equal(a.Store[i].Key, key) {
			a.Store[i].Val = v
			return
		}
	}
	a.Store = append(a.Store, KV{append([]byte{}, key...), v})
}

// Nonce is the current nonce.
func (m *Model) Nonce(addr []byte) uint64 {
	n := m.Acc(addr).Made
	if a := m.W.Acc(addr); a != nil {
		n += a.Nonce
	}
	return n
}

// CheckCode compares code, owners and nonces.
func (m *Model) CheckCode(out *vmcommon.VMOutput) {
	for _, a := range m.Accs {
		if (len(a.Code) > 0 || a.Made > 0) && out.OutputAccounts[string(a.Addr)] == nil {
			nd.Fail("every deployment is reported")
		}
	}
	for addr, oa := range out.OutputAccounts {
		a := m.Acc([]byte(addr))
		nd.Assert(bytes.Equal(oa.Code, a.Code), "exactly the code deployed is reported")
		if len(a.Code) > 0 {
			nd.Assert(bytes.Equal(oa.CodeMetadata, a.Meta) && bytes.Equal(oa.CodeDeployerAddress, a.Owner), "a deployment is reported with its metadata and owner")
		}
		if a.Made > 0 {
			nd.Assert(oa.Nonce == m.Nonce(a.Addr), "every deployment raises the nonce of its creator by one")
		} else {
			nd.Assert(oa.Nonce == 0 || oa.Nonce == m.Nonce(a.Addr), "no nonce is raised without a deployment")
		}
	}
	nd.Assert(m.W.Journal == m.Journal, "the ledger keeps exactly the changes of the calls that lasted")
}

// Balance is the current balance.
func (m *Model) Balance(addr []byte) *big.Int {
	b := big.NewInt(0)
	if a := m.W.Acc(addr); a != nil {
		b.Set(a.Balance)
	}
	return b.Add(b, m.Acc(addr).Delta)
}

// Move moves value and tells whether the sender had it.
func (m *Model) Move(from, to []byte, v *big.Int) bool {
	if v.Sign() < 0 || m.Balance(from).Cmp(v) < 0 {
		return false
	}
	a := m.Acc(from)
	a.Delta = big.NewInt(0).Sub(a.Delta, v)
	b := m.Acc(to)
	b.Delta = big.NewInt(0).Add(b.Delta, v)
	return true
}

// Receive adds value that comes in with the transaction.
func (m *Model) Receive(to []byte, v *big.Int) {
	b := m.Acc(to)
	b.Delta = big.NewInt(0).Add(b.Delta, v)
}

// Check compares a successful output with the model.
func (m *Model) Check(out *vmcommon.VMOutput) {
	m.CheckStorage(out)
	m.CheckBalances(out)
	m.CheckReturn(out)
	m.CheckLogs(out)
	m.CheckTransfers(out)
	m.CheckCode(out)
}

// CheckStorage compares the storage changes.
func (m *Model) CheckStorage(out *vmcommon.VMOutput) {
	for _, a := range m.Accs {
		oa := out.OutputAccounts[string(a.Addr)]
		for _, kv := range a.Store {
			var before []byte
			if wa := m.W.Acc(a.Addr); wa != nil {
				before = wa.Get(kv.Key)
			}
			var u *vmcommon.StorageUpdate
			if oa != nil {
				u = oa.StorageUpdates[string(kv.Key)]
			}
			if u == nil {
				nd.Assert(bytes.Equal(before, kv.Val), "every changed storage key is reported")
				continue
			}
			nd.Assert(bytes.Equal(u.Offset, kv.Key), "a storage update carries its own key")
			nd.Assert(bytes.Equal(u.Data, kv.Val), "a storage update carries the value written last")
		}
	}
	for addr, oa := range out.OutputAccounts {
		nd.Assert(addr == string(oa.Address), "an output account is listed under its own address")
		for k, u := range oa.StorageUpdates {
			nd.Assert(bytes.Equal(u.Data, m.Get([]byte(addr), []byte(k))), "the storage reported equals what was written")
		}
	}
}

// CheckBalances compares the balance changes.
func (m *Model) CheckBalances(out *vmcommon.VMOutput) {
	for _, a := range m.Accs {
		if oa := out.OutputAccounts[string(a.Addr)]; oa == nil {
			nd.Assert(a.Delta.Sign() == 0, "every changed balance is reported")
		}
	}
	for addr, oa := range out.OutputAccounts {
		d := oa.BalanceDelta
		if d == nil {
			d = big.NewInt(0)
		}
		nd.Assert(d.Cmp(m.Acc([]byte(addr)).Delta) == 0, "the balance change reported equals the value moved")
	}
}

// CheckReturn compares the return data.
func (m *Model) CheckReturn(out *vmcommon.VMOutput) {
	nd.Assert(len(out.ReturnData) == len(m.Ret), "every return value is reported once")
	if len(out.ReturnData) != len(m.Ret) {
		return
	}
	for i := range m.Ret {
		nd.Assert(bytes.Equal(out.ReturnData[i], m.Ret[i]), "return values are reported as given, in order")
	}
}

// CheckLogs compares the logs.
func (m *Model) CheckLogs(out *vmcommon.VMOutput) {
	nd.Assert(len(out.Logs) == len(m.Logs), "every log entry is reported once")
	if len(out.Logs) != len(m.Logs) {
		return
	}
	for i, l := range m.Logs {
		o := out.Logs[i]
		nd.Assert(bytes.Equal(o.Address, l.Addr), "a log entry carries the address of its writer")
		nd.Assert(bytes.Equal(o.Data, l.Data), "a log entry carries its data")
		if len(l.Topics) == 0 {
			nd.Assert(len(o.Identifier) == 0 && len(o.Topics) == 0, "a log entry without topics has none")
			continue
		}
		nd.Assert(bytes.Equal(o.Identifier, l.Topics[0]), "a log entry carries its identifier")
		nd.Assert(len(o.Topics) == len(l.Topics)-1, "a log entry carries all its topics")
		if len(o.Topics) == len(l.Topics)-1 {
			for j := range o.Topics {
				nd.Assert(bytes.Equal(o.Topics[j], l.Topics[j+1]), "a log entry carries its topics in order")
			}
		}
	}
}

// CheckTransfers compares the outgoing transfers.
func (m *Model) CheckTransfers(out *vmcommon.VMOutput) {
	for _, a := range m.Accs {
		if len(a.Xfers) > 0 && out.OutputAccounts[string(a.Addr)] == nil {
			nd.Fail("every transfer is reported")
		}
	}
	for addr, oa := range out.OutputAccounts {
		xs := m.Acc([]byte(addr)).Xfers
		nd.Assert(len(oa.OutputTransfers) == len(xs), "every transfer is reported exactly once")
		if len(oa.OutputTransfers) != len(xs) {
			continue
		}
		for i, x := range xs {
			t := oa.OutputTransfers[i]
			nd.Assert(t.Value.Cmp(x.Value) == 0, "a transfer carries its value")
			nd.Assert(bytes.Equal(t.Data, x.Data), "a transfer carries its data")
			nd.Assert(bytes.Equal(t.SenderAddress, x.From), "a transfer names its sender")
		}
	}
}

// CheckFailed states that a failed result carries no effects.
func CheckFailed(out *vmcommon.VMOutput) {
	nd.Assert(len(out.OutputAccounts) == 0, "a failed result changes no account")
	nd.Assert(len(out.Logs) == 0, "a failed result has no logs")
	nd.Assert(len(out.ReturnData) == 0, "a failed result returns no data")
	nd.Assert(len(out.DeletedAccounts) == 0 && len(out.TouchedAccounts) == 0, "a failed result deletes nothing")
	nd.Assert(out.GasRemaining == 0, "a failed result returns no gas")
	nd.Assert(out.GasRefund == nil || out.GasRefund.Sign() == 0, "a failed result refunds no gas")
}

// ---- steps: API calls made the way a contract makes them ----

// Self is the address of the running contract.
func (in *Inst) Self() []byte { return in.W.Host.Runtime().GetSCAddress() }

// Store calls storageStore; the result is -2 if the step did not run.
func (in *Inst) Store(key, val []byte) int32 {
	r := int32(-2)
	in.Do(func() {
		in.Put(0, key)
		in.Put(len(key), val)
		r = elrondapi.XStorageStore(in.Ctx(), 0, int32(len(key)), int32(len(key)), int32(len(val)))
	})
	return r
}

// Load calls storageLoad and returns what arrived in memory.
func (in *Inst) Load(key []byte) ([]byte, bool) {
	var r []byte
	ok := false
	in.Do(func() {
		in.Put(0, key)
		n := elrondapi.XStorageLoad(in.Ctx(), 0, int32(len(key)), int32(len(key)))
		if n >= 0 {
			ok = true
			r = append([]byte{}, in.Mem.B[len(key):len(key)+int(n)]...)
		}
	})
	return r, ok
}

// LoadFrom calls storageLoadFromAddress.
func (in *Inst) LoadFrom(addr, key []byte) []byte {
	var r []byte
	in.Do(func() {
		in.Put(0, addr)
		in.Put(32, key)
		n := elrondapi.XStorageLoadFromAddress(in.Ctx(), 0, 32, int32(len(key)), 64)
		if n >= 0 {
			r = append([]byte{}, in.Mem.B[64:64+int(n)]...)
		}
	})
	return r
}

// Finish calls finish.
func (in *Inst) Finish(data []byte) {
	in.Do(func() {
		in.Put(0, data)
		elrondapi.XReturnData(in.Ctx(), 0, int32(len(data)))
	})
}

// Log calls writeEventLog.
func (in *Inst) Log(topics [][]byte, data []byte) {
	in.Do(func() {
		off := 4 * len(topics)
		for i, t := range topics {
			binary.LittleEndian.PutUint32(in.Mem.B[4*i:], uint32(len(t)))
			in.Put(off, t)
			off += len(t)
		}
		in.Put(off, data)
		elrondapi.XWriteEventLog(in.Ctx(), int32(len(topics)), 0, int32(4*len(topics)), int32(off), int32(len(data)))
	})
}

// Signal calls signalError.
func (in *Inst) Signal(msg []byte) {
	in.Do(func() {
		in.Put(0, msg)
		elrondapi.XSignalError(in.Ctx(), 0, int32(len(msg)))
	})
}

// Bytes32 is the 32-byte big-endian form of a value below 2^256.
func Bytes32(v *big.Int) []byte {
	b := v.Bytes()
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

// Value is a 32-byte big-endian value made of 8 symbolic bytes.
func Value(name string) (*big.Int, []byte) {
	b := make([]byte, 32)
	v := nd.U64(name)
	binary.BigEndian.PutUint64(b[24:], v)
	return new(big.Int).SetUint64(v), b
}

// Transfer calls transferValue.
func (in *Inst) Transfer(to, value32, data []byte) int32 {
	r := int32(-2)
	in.Do(func() {
		in.Put(0, to)
		in.Put(32, value32)
		in.Put(64, data)
		r = elrondapi.XTransferValue(in.Ctx(), 0, 32, 64, int32(len(data)))
	})
	return r
}

// The kinds of nested calls.
const (
	Dest = iota
	DestByCaller
	Same
	Delegate
	ReadOnly
	TransferExec
)

// Nested makes a nested call through the contract API.
func (in *Inst) Nested(kind int, gas int64, to, value32 []byte, fn string, args ...[]byte) int32 {
	r := int32(-2)
	in.Do(func() {
		in.Put(0, to)
		in.Put(32, value32)
		in.Put(64, []byte(fn))
		fo, fl := int32(64), int32(len(fn))
		lo := 64 + len(fn)
		do := lo + 4*len(args)
		off := do
		for i, a := range args {
			binary.LittleEndian.PutUint32(in.Mem.B[lo+4*i:], uint32(len(a)))
			in.Put(off, a)
			off += len(a)
		}
		n := int32(len(args))
		c := in.Ctx()
		switch kind {
		case Dest:
			r = elrondapi.XExecuteOnDestContext(c, gas, 0, 32, fo, fl, n, int32(lo), int32(do))
		case DestByCaller:
			r = elrondapi.XExecuteOnDestContextByCaller(c, gas, 0, 32, fo, fl, n, int32(lo), int32(do))
		case Same:
			r = elrondapi.XExecuteOnSameContext(c, gas, 0, 32, fo, fl, n, int32(lo), int32(do))
		case Delegate:
			r = elrondapi.XDelegateExecution(c, gas, 0, fo, fl, n, int32(lo), int32(do))
		case ReadOnly:
			r = elrondapi.XExecuteReadOnly(c, gas, 0, fo, fl, n, int32(lo), int32(do))
		case TransferExec:
			r = elrondapi.XTransferValueExecute(c, 0, 32, gas, fo, fl, n, int32(lo), int32(do))
		}
	})
	return r
}

// Zero32 is the value zero.
func Zero32() []byte { return make([]byte, 32) }

// NestedInput is the input of a nested call made through the host directly.
func (in *Inst) NestedInput(to []byte, value *big.Int, fn string, gas uint64, args ...[]byte) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{
			CallerAddr: in.Self(), Arguments: args, CallValue: value,
			GasProvided: gas, GasPrice: 0,
		},
		RecipientAddr: to, Function: fn,
	}
}

// HostDest runs a nested call through the host and returns its error.
func (in *Inst) HostDest(to []byte, value *big.Int, fn string, gas uint64, args ...[]byte) (out *vmcommon.VMOutput, err error) {
	in.Do(func() {
		out, _, err = in.W.Host.ExecuteOnDestContext(in.NestedInput(to, value, fn, gas, args...))
	})
	return
}

// HostSame runs a same-context call through the host and returns its error.
func (in *Inst) HostSame(to []byte, value *big.Int, fn string, gas uint64, args ...[]byte) (err error) {
	in.Do(func() {
		_, err = in.W.Host.ExecuteOnSameContext(in.NestedInput(to, value, fn, gas, args...))
	})
	return
}
