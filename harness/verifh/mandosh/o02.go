package mandosh

import (
	"bytes"
	"errors"
	"math"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// machine answers every transaction with a given result and remembers what it
// was asked.
type machine struct {
	out     *vmcommon.VMOutput
	err     error
	calls   int
	call    *vmcommon.ContractCallInput
	create  *vmcommon.ContractCreateInput
	world   *worldmock.MockWorld
	balance *big.Int
	touch   []byte
}

// RunSmartContractCreate -
func (m *machine) RunSmartContractCreate(input *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	m.calls++
	m.create = input
	return m.out, m.err
}

// RunSmartContractCall -
func (m *machine) RunSmartContractCall(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	m.calls++
	m.call = input
	if m.touch != nil {
		// what a built-in function does in the middle of a transaction
		acct := m.world.AcctMap.GetAccount(m.touch)
		_ = acct.SaveKeyValue([]byte("k"), []byte("written"))
		_ = acct.SaveKeyValue([]byte("l"), []byte("written"))
	}
	return m.out, m.err
}

// GasScheduleChange -
func (m *machine) GasScheduleChange(map[string]map[string]uint64) {}

// GetVersion -
func (m *machine) GetVersion() string { return "" }

// IsInterfaceNil -
func (m *machine) IsInterfaceNil() bool { return m == nil }

func named(prefix string) []byte {
	a := make([]byte, 32)
	copy(a, prefix)
	return a
}

var (
	alice  = named("alice")
	bob    = named("bob")
	sc     = named("\x00\x00\x00\x00\x00\x00\x00\x00contract")
	nobody = named("nobody")
)

type was struct {
	nonce   uint64
	balance *big.Int
	k       []byte
	code    []byte
}

type scene struct {
	ae     *arwenmandos.ArwenTestExecutor
	vm     *machine
	before map[string]was
}

// newScene has an ordinary account, another, and a contract, with any nonce
// and balance.
func newScene() *scene {
	w := worldmock.NewMockWorld()
	vm := &machine{world: w}
	s := &scene{ae: arwenmandos.XNewExecutor(w, vm), vm: vm, before: map[string]was{}}
	for _, a := range [][]byte{alice, bob, sc} {
		acct := w.AcctMap.CreateAccount(a, w)
		acct.Nonce = nd.U64("nonce")
		nd.Assume(acct.Nonce < math.MaxUint64)
		acct.Balance = nd.Big("balance", 96)
		acct.Storage["k"] = nd.Bytes("stored", 1)
		if a[0] == 0 {
			acct.Code = []byte("code")
			acct.IsSmartContract = true
			acct.CodeMetadata = []byte{0, vmcommon.MetadataPayable}
		}
		s.before[string(a)] = was{acct.Nonce, new(big.Int).Set(acct.Balance), acct.Storage["k"], acct.Code}
	}
	return s
}

func (s *scene) balance(a []byte) *big.Int {
	acct := s.ae.World.AcctMap.GetAccount(a)
	if acct == nil {
		return new(big.Int)
	}
	return acct.Balance
}

// changed says what an account lost, gained, and by how much its nonce grew.
func (s *scene) changed(a []byte, delta *big.Int, nonces uint64, what string) {
	old := s.before[string(a)]
	acct := s.ae.World.AcctMap.GetAccount(a)
	nd.Assert(acct != nil, what+": the account exists")
	if acct == nil {
		return
	}
	nd.Assert(acct.Balance.Cmp(new(big.Int).Add(old.balance, delta)) == 0, what+": balance")
	nd.Assert(acct.Nonce == old.nonce+nonces, what+": nonce")
	nd.Assert(bytes.Equal(acct.Storage["k"], old.k) && len(acct.Storage["l"]) == 0, what+": storage")
	nd.Assert(bytes.Equal(acct.Code, old.code), what+": code")
}

func (s *scene) run(tx *mj.Transaction) (*vmcommon.VMOutput, error) {
	return s.ae.ExecuteTxStep(&mj.TxStep{TxIdent: "tx", Tx: tx})
}

func (s *scene) same(what string, addresses ...[]byte) {
	for _, a := range addresses {
		s.changed(a, new(big.Int), 0, what)
	}
}

func value(name string) mj.JSONBigInt {
	return mj.JSONBigInt{Value: nd.Big(name, 80)}
}

func text(b []byte) mj.JSONBytesFromString {
	return mj.JSONBytesFromString{Value: b}
}

// paid gives a transaction a gas limit and price and says what they cost.
func paid(tx *mj.Transaction) *big.Int {
	tx.GasLimit.Value = nd.U64("gas limit")
	tx.GasPrice.Value = []uint64{0, 1, 1000000000}[nd.Choice("gas price", 3)]
	return new(big.Int).Mul(new(big.Int).SetUint64(tx.GasLimit.Value), new(big.Int).SetUint64(tx.GasPrice.Value))
}

func minus(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

// O02_Transfer: a transfer moves its value and charges the gas, or moves
// nothing.
func O02_Transfer() {
	s := newScene()
	tx := &mj.Transaction{Type: mj.Transfer, From: text(alice), Value: value("value")}
	to := [][]byte{bob, sc, nobody, alice}[nd.Choice("to", 4)]
	tx.To = text(to)
	cost := paid(tx)
	v := new(big.Int).Set(tx.Value.Value)
	rich := s.before[string(alice)].balance.Cmp(cost) >= 0
	enough := s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, v)) >= 0
	out, err := s.run(tx)
	nd.Assert(s.vm.calls == 0, "a transfer runs no code")
	if !rich {
		nd.Assert(err != nil, "gas that cannot be paid: an error")
		nd.Reach("no gas")
		return
	}
	nd.Assert(err == nil && out != nil, "a transfer is executed")
	if !enough {
		nd.Assert(out.ReturnCode == vmcommon.OutOfFunds, "value that is not there: out of funds")
		s.changed(alice, minus(cost), 1, "a failed transfer costs its gas")
		s.same("a failed transfer", bob, sc)
		nd.Assert(s.ae.World.AcctMap.GetAccount(nobody) == nil, "a failed transfer makes no account")
		nd.Reach("no funds")
		return
	}
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a transfer succeeds")
	if bytes.Equal(to, alice) {
		s.changed(alice, minus(cost), 1, "a transfer to oneself")
		s.same("a transfer to oneself", bob, sc)
		nd.Reach("self")
		return
	}
	s.changed(alice, minus(new(big.Int).Add(cost, v)), 1, "a transfer takes the value")
	nd.Assert(s.balance(to).Cmp(new(big.Int).Add(zeroIfNil(s.before[string(to)].balance), v)) == 0, "a transfer gives the value")
	for _, a := range [][]byte{bob, sc} {
		if !bytes.Equal(a, to) {
			s.same("a transfer to someone else", a)
		} else {
			s.changed(a, v, 0, "a transfer to this account")
		}
	}
	nd.Reach("moved")
}

func zeroIfNil(b *big.Int) *big.Int {
	if b == nil {
		return new(big.Int)
	}
	return b
}

// O02_Sender: a transaction of an unknown sender is an error.
func O02_Sender() {
	s := newScene()
	kind := []mj.TransactionType{mj.Transfer, mj.ScCall, mj.ScDeploy}[nd.Choice("kind", 3)]
	tx := &mj.Transaction{Type: kind, From: text(nobody), To: text(sc), Value: value("value")}
	paid(tx)
	_, err := s.run(tx)
	nd.Assert(err != nil, "an unknown sender: an error")
	nd.Assert(s.vm.calls == 0, "an unknown sender: no code is run")
	s.same("an unknown sender", alice, bob, sc)
	nd.Reach("done")
}

// O02_Reward: a reward appears at its receiver and is counted there.
func O02_Reward() {
	s := newScene()
	to := [][]byte{bob, sc, nobody}[nd.Choice("to", 3)]
	tx := &mj.Transaction{Type: mj.ValidatorReward, To: text(to), Value: value("reward")}
	v := new(big.Int).Set(tx.Value.Value)
	counted := nd.Big("counted", 40)
	nd.Assume(counted.Sign() > 0)
	if acct := s.ae.World.AcctMap.GetAccount(to); acct != nil {
		acct.Storage["ELRONDreward"] = counted.Bytes()
	}
	_, err := s.run(tx)
	if bytes.Equal(to, nobody) {
		nd.Assert(err != nil, "a reward for nobody: an error")
		s.same("a reward for nobody", alice, bob, sc)
		nd.Reach("nobody")
		return
	}
	nd.Assert(err == nil, "a reward is given")
	for _, a := range [][]byte{alice, bob, sc} {
		if bytes.Equal(a, to) {
			s.changed(a, v, 0, "rewarded")
		} else {
			s.same("not rewarded", a)
		}
	}
	got := s.ae.World.AcctMap.GetAccount(to).Storage["ELRONDreward"]
	nd.Assert(new(big.Int).SetBytes(got).Cmp(new(big.Int).Add(counted, v)) == 0, "rewards are counted")
	nd.Reach("rewarded")
}

func delta(a []byte, d *big.Int) *vmcommon.OutputAccount {
	return &vmcommon.OutputAccount{Address: a, BalanceDelta: d, StorageUpdates: map[string]*vmcommon.StorageUpdate{}}
}

func output(accounts ...*vmcommon.OutputAccount) *vmcommon.VMOutput {
	out := &vmcommon.VMOutput{ReturnCode: vmcommon.Ok, GasRefund: big.NewInt(0), OutputAccounts: map[string]*vmcommon.OutputAccount{}}
	for _, a := range accounts {
		out.OutputAccounts[string(a.Address)] = a
	}
	return out
}

func callTx() *mj.Transaction {
	return &mj.Transaction{Type: mj.ScCall, From: text(alice), To: text(sc), Function: "f", Value: value("value")}
}

// O02_CallInput: the machine is asked exactly what the transaction says.
func O02_CallInput() {
	s := newScene()
	s.vm.err = errors.New("stop")
	kind := []mj.TransactionType{mj.ScCall, mj.ScDeploy, mj.ScQuery}[nd.Choice("kind", 3)]
	tx := &mj.Transaction{Type: kind, Function: "f", To: text(sc), Value: mj.JSONBigIntZero()}
	if kind != mj.ScQuery {
		tx.From = text(alice)
		tx.Value = value("value")
		tx.GasLimit.Value = nd.U64("gas limit")
		tx.GasPrice.Value = 3
	}
	if kind == mj.ScDeploy {
		tx.To = text(nil)
		tx.Code = text(nd.BytesUpTo("code", 1))
	}
	args := [][]byte{nd.BytesUpTo("first", 2), nd.Bytes("second", 1)}[:nd.Choice("arguments", 3)]
	for _, a := range args {
		tx.Arguments = append(tx.Arguments, mj.JSONBytesFromTree{Value: a})
	}
	limit, price, v := tx.GasLimit.Value, tx.GasPrice.Value, new(big.Int).Set(tx.Value.Value)
	cost := new(big.Int).Mul(new(big.Int).SetUint64(limit), new(big.Int).SetUint64(price))
	_, err := s.run(tx)
	if s.vm.calls == 0 {
		nd.Assert(s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, v)) < 0 && kind != mj.ScQuery, "the machine is asked whenever the transaction can be paid")
		nd.Reach("not paid")
		return
	}
	nd.Assert(err != nil, "an error of the machine is an error of the step")
	nd.Assert(s.vm.calls == 1, "the machine is asked once")
	var in *vmcommon.VMInput
	if kind == mj.ScDeploy {
		nd.Assert(s.vm.create != nil, "a deployment deploys")
		in = &s.vm.create.VMInput
		nd.Assert(bytes.Equal(s.vm.create.ContractCode, tx.Code.Value), "the code is the given one")
	} else {
		nd.Assert(s.vm.call != nil, "a call calls")
		in = &s.vm.call.VMInput
		nd.Assert(bytes.Equal(s.vm.call.RecipientAddr, sc) && s.vm.call.Function == "f", "the called function is the given one")
	}
	if kind == mj.ScQuery {
		nd.Assert(bytes.Equal(in.CallerAddr, sc), "a query comes from the contract itself")
		nd.Assert(in.GasProvided == math.MaxUint64, "a query has all gas")
	} else {
		nd.Assert(bytes.Equal(in.CallerAddr, alice), "the caller is the sender")
		nd.Assert(in.GasProvided == limit && in.GasPrice == price, "the gas is the given one")
	}
	nd.Assert(in.CallValue.Cmp(v) == 0, "the value is the given one")
	nd.Assert(len(in.Arguments) == len(args), "the arguments are the given ones")
	for i := range args {
		nd.Assert(bytes.Equal(in.Arguments[i], args[i]), "an argument is the given one")
	}
	nd.Assert(len(in.ESDTTransfers) == 0, "no tokens")
	nd.Reach("asked")
}

// O02_Result: what the machine returns is what happens.
func O02_Result() {
	s := newScene()
	tx := callTx()
	cost := paid(tx)
	v := new(big.Int).Set(tx.Value.Value)
	nd.Assume(s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, v)) >= 0)
	a, b := nd.BigSigned("to alice", 80), nd.BigSigned("to bob", 80)
	c := new(big.Int).Sub(new(big.Int).Sub(v, a), b)
	oa, ob, oc := delta(alice, a), delta(bob, b), delta(sc, c)
	written := nd.BytesUpTo("written", 1)
	oc.StorageUpdates["k"] = &vmcommon.StorageUpdate{Offset: []byte("k"), Data: written}
	oc.Nonce = nd.U64("reported nonce")
	out := output(oa, ob, oc)
	dead := nd.Bool("deleted")
	if dead {
		out.DeletedAccounts = [][]byte{bob}
	}
	made := nd.Bool("made")
	if made {
		om := delta(nobody, big.NewInt(0))
		om.Code = []byte("new code")
		om.CodeDeployerAddress = sc
		om.Nonce = 3
		out.OutputAccounts[string(nobody)] = om
	}
	s.vm.out = out
	got, err := s.run(tx)
	nd.Assert(err == nil && got == out, "the result is the machine's")
	s.changed(alice, new(big.Int).Sub(a, new(big.Int).Add(cost, v)), 1, "sender")
	if dead {
		nd.Assert(s.ae.World.AcctMap.GetAccount(bob) == nil, "a deleted account is gone")
	} else {
		s.changed(bob, b, 0, "third account")
	}
	old := s.before[string(sc)]
	acct := s.ae.World.AcctMap.GetAccount(sc)
	nd.Assert(acct.Balance.Cmp(new(big.Int).Add(old.balance, c)) == 0, "balance of the contract")
	nd.Assert(bytes.Equal(acct.Storage["k"], written), "storage of the contract")
	nonce := old.nonce
	if oc.Nonce > nonce {
		nonce = oc.Nonce
	}
	nd.Assert(acct.Nonce == nonce, "nonce of the contract")
	nd.Assert(bytes.Equal(acct.Code, old.code), "code of the contract")
	fresh := s.ae.World.AcctMap.GetAccount(nobody)
	nd.Assert((fresh != nil) == made, "an account is made when the machine says so")
	if fresh != nil {
		nd.Assert(string(fresh.Code) == "new code" && bytes.Equal(fresh.OwnerAddress, sc) && fresh.Nonce == 3 && fresh.IsSmartContract, "a deployed contract has its code, owner and nonce")
	}
	nd.Reach("done")
}

// O02_Conserved: a result that makes or loses value is refused and changes
// nothing.
func O02_Conserved() {
	s := newScene()
	tx := callTx()
	cost := paid(tx)
	v := new(big.Int).Set(tx.Value.Value)
	nd.Assume(s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, v)) >= 0)
	a, c := nd.BigSigned("to bob", 80), nd.BigSigned("to contract", 80)
	nd.Assume(new(big.Int).Add(a, c).Cmp(v) != 0)
	oc := delta(sc, c)
	oc.StorageUpdates["k"] = &vmcommon.StorageUpdate{Offset: []byte("k"), Data: []byte("new")}
	s.vm.out = output(delta(bob, a), oc)
	_, err := s.run(tx)
	nd.Assert(err != nil, "a result that does not add up: an error")
	s.changed(alice, minus(cost), 1, "a result that does not add up")
	s.same("a result that does not add up", bob, sc)
	nd.Reach("done")
}

// O02_Failed: a failed call costs its gas and undoes what it wrote.
func O02_Failed() {
	s := newScene()
	for round := 0; round < 2; round++ {
		tx := callTx()
		if nd.Bool("deploy") {
			tx = &mj.Transaction{Type: mj.ScDeploy, From: text(alice), Value: value("value")}
		}
		tx.GasLimit.Value = nd.U64("gas limit")
		tx.GasPrice.Value = 1
		cost := new(big.Int).SetUint64(tx.GasLimit.Value)
		nd.Assume(s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, tx.Value.Value)) >= 0)
		s.vm.touch = [][]byte{alice, bob, sc}[nd.Choice("touch", 3)]
		out := output()
		out.ReturnCode = vmcommon.ReturnCode(nd.U8("code"))
		nd.Assume(out.ReturnCode != vmcommon.Ok)
		out.OutputAccounts[string(bob)] = delta(bob, nd.BigSigned("delta", 80))
		s.vm.out = out
		crash := nd.Bool("crash")
		if crash {
			s.vm.err = errors.New("broken")
		}
		got, err := s.run(tx)
		if crash {
			nd.Assert(err != nil, "a broken machine is an error")
			nd.Reach("broken")
		} else {
			nd.Assert(err == nil && got == out, "the failure is the machine's")
			nd.Reach("failed")
		}
		s.changed(alice, minus(cost), 1, "a failed call")
		s.same("a failed call", bob, sc)
		acct := s.ae.World.AcctMap.GetAccount(alice)
		s.before[string(alice)] = was{acct.Nonce, new(big.Int).Set(acct.Balance), acct.Storage["k"], acct.Code}
		nd.Assume(acct.Nonce < math.MaxUint64)
		s.vm.err = nil
	}
	nd.Reach("twice")
}

// O02_After: a failure undoes nothing of what happened before its transaction.
func O02_After() {
	s := newScene()
	first := nd.U8("written first")
	oc := delta(sc, new(big.Int))
	oc.StorageUpdates["k"] = &vmcommon.StorageUpdate{Offset: []byte("k"), Data: []byte{first}}
	ob := delta(bob, new(big.Int))
	made := delta(nobody, new(big.Int))
	made.Code = []byte("new code")
	made.StorageUpdates["k"] = &vmcommon.StorageUpdate{Offset: []byte("k"), Data: []byte{9}}
	s.vm.out = output(ob, oc, made)
	tx := callTx()
	tx.Value = mj.JSONBigIntZero()
	if nd.Bool("built-in") {
		s.vm.touch = sc
	}
	_, err := s.run(tx)
	nd.Assert(err == nil, "a first call")
	s.vm.touch = [][]byte{nil, bob, sc, nobody}[nd.Choice("touch", 4)]
	s.vm.out = output(delta(bob, new(big.Int)))
	s.vm.out.ReturnCode = vmcommon.UserError
	tx = callTx()
	tx.Value = mj.JSONBigIntZero()
	_, err = s.run(tx)
	nd.Assert(err == nil, "a second call, which fails")
	k := func(a []byte) []byte { return s.ae.World.AcctMap.GetAccount(a).Storage["k"] }
	nd.Assert(bytes.Equal(k(sc), []byte{first}), "what the first call wrote is kept")
	nd.Assert(bytes.Equal(k(nobody), []byte{9}), "what the first call wrote to a new account is kept")
	s.same("two calls of someone else", bob)
	s.changed(alice, new(big.Int), 2, "two calls")
	nd.Reach("done")
}

// O02_Target: a call of something that is not a contract is an error.
func O02_Target() {
	s := newScene()
	kind := []mj.TransactionType{mj.ScCall, mj.ScQuery}[nd.Choice("kind", 2)]
	tx := &mj.Transaction{Type: kind, Function: "f", To: text([][]byte{bob, nobody}[nd.Choice("to", 2)]), Value: mj.JSONBigIntZero()}
	cost := new(big.Int)
	nonces := uint64(0)
	if kind == mj.ScCall {
		tx.From = text(alice)
		cost = paid(tx)
		nonces = 1
	}
	nd.Assume(s.before[string(alice)].balance.Cmp(cost) >= 0)
	_, err := s.run(tx)
	nd.Assert(err != nil && s.vm.calls == 0, "no contract there: an error")
	s.changed(alice, minus(cost), nonces, "no contract there")
	s.same("no contract there", bob, sc)
	nd.Reach("done")
}

// O02_Tokens: a transaction with tokens moves them before the code runs, and
// moves none when it fails.
func O02_Tokens() {
	s := newScene()
	err := s.ae.World.InitBuiltinFunctions(config.MakeGasMapForTests())
	nd.Assert(err == nil, "built-in functions are there")
	if err != nil {
		return
	}
	nonce := uint64(nd.Choice("token nonce", 2))
	key := worldmock.MakeTokenKey([]byte("T-1"), nonce)
	give := func(a []byte, v *big.Int, frozen bool) {
		t := &esdt.ESDigitalToken{Value: v, Type: uint32(vmcommon.Fungible), Properties: (&builtInFunctions.ESDTUserMetadata{Frozen: frozen}).ToBytes()}
		if nonce > 0 {
			t.Type = uint32(vmcommon.NonFungible)
			t.TokenMetaData = &esdt.MetaData{Name: []byte("N"), Nonce: nonce}
		}
		nd.Assert(s.ae.World.AcctMap.GetAccount(a).SetTokenData(key, t) == nil, "tokens are given")
	}
	have, had := nd.Big("tokens of alice", 8+8*nd.Tier()), nd.Big("tokens of the contract", 8+8*nd.Tier())
	nd.Assume(have.Sign() > 0 && had.Sign() > 0)
	frozen := nd.Bool("frozen")
	give(alice, have, false)
	give(sc, had, frozen)
	tx := callTx()
	kind := []mj.TransactionType{mj.ScCall, mj.Transfer}[nd.Choice("kind", 2)]
	tx.Type = kind
	moved := nd.Big("moved", 8+8*nd.Tier())
	nd.Assume(moved.Sign() > 0)
	tx.ESDTValue = &mj.ESDTTxData{TokenIdentifier: text([]byte("T-1")), Nonce: mj.JSONUint64{Value: nonce}, Value: mj.JSONBigInt{Value: new(big.Int).Set(moved)}}
	tx.GasLimit.Value = 100 + uint64(nd.U16("gas limit"))
	tx.GasPrice.Value = 1
	cost := new(big.Int).SetUint64(tx.GasLimit.Value)
	v := new(big.Int).Set(tx.Value.Value)
	nd.Assume(s.before[string(alice)].balance.Cmp(new(big.Int).Add(cost, v)) >= 0)
	s.vm.out = output(delta(sc, new(big.Int).Set(v)))
	fails := kind == mj.ScCall && nd.Bool("fails")
	if fails {
		s.vm.out = output()
		s.vm.out.ReturnCode = vmcommon.UserError
	}
	_, err = s.run(tx)
	tokens := func(a []byte) *big.Int {
		t, e := s.ae.World.BuiltinFuncs.GetTokenData(a, key)
		nd.Assert(e == nil, "tokens can be read")
		if e != nil {
			return new(big.Int)
		}
		return t.Value
	}
	possible := have.Cmp(moved) >= 0 && !frozen
	if possible && !fails {
		nd.Assert(err == nil, "tokens that are there are moved")
		nd.Assert(tokens(alice).Cmp(new(big.Int).Sub(have, moved)) == 0, "the sender has the rest")
		nd.Assert(tokens(sc).Cmp(new(big.Int).Add(had, moved)) == 0, "the receiver has the tokens")
		s.changed(alice, minus(new(big.Int).Add(cost, v)), 1, "sender of tokens")
		s.changed(sc, v, 0, "receiver of tokens")
		nd.Reach("moved")
	} else {
		nd.Assert((err == nil) == possible, "tokens that cannot be moved: an error")
		nd.Assert(tokens(alice).Cmp(have) == 0, "the sender keeps the tokens")
		nd.Assert(tokens(sc).Cmp(had) == 0, "the receiver gets no tokens")
		s.changed(alice, minus(cost), 1, "sender of no tokens")
		s.same("receiver of no tokens", sc)
		if fails {
			nd.Reach("failed")
		} else {
			nd.Reach("impossible")
		}
	}
	if !possible {
		nd.Assert(s.vm.calls == 0, "no tokens, no call")
	} else if kind == mj.ScCall {
		in := s.vm.call
		nd.Assert(len(in.ESDTTransfers) == 1, "the machine is told of the tokens")
		t := in.ESDTTransfers[0]
		nd.Assert(string(t.ESDTTokenName) == "T-1" && t.ESDTTokenNonce == nonce && t.ESDTValue.Cmp(moved) == 0, "the machine is told which and how many")
		nd.Assert((t.ESDTTokenType == uint32(vmcommon.Fungible)) == (nonce == 0), "the machine is told of their kind")
		nd.Assert(in.GasProvided <= tx.GasLimit.Value, "moving tokens takes gas")
	}
	s.same("someone else", bob)
}

// O02_Query: a query costs nothing.
func O02_Query() {
	s := newScene()
	tx := &mj.Transaction{Type: mj.ScQuery, To: text(sc), Function: "f", Value: mj.JSONBigIntZero()}
	s.vm.out = output(delta(sc, big.NewInt(0)))
	s.vm.out.ReturnData = [][]byte{{1}}
	fail := nd.Bool("fails")
	if fail {
		s.vm.out.ReturnCode = vmcommon.UserError
	}
	got, err := s.run(tx)
	nd.Assert(err == nil && got == s.vm.out, "the answer is the machine's")
	s.same("a query", alice, bob, sc)
	nd.Reach("done")
}
