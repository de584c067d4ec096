// Package vmh is the environment the harnesses run the real VM host in: a
// blockchain, built-in functions and contract instances under harness control.
package vmh

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/big"
	"unsafe"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	arwenHost "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// Addr builds a 32-byte address; contracts start with zeros.
func Addr(kind byte, tag byte) []byte {
	a := make([]byte, 32)
	a[8] = kind
	a[30] = tag
	a[31] = tag
	return a
}

// The addresses the harnesses use. The shard of an address is byte 9.
var (
	User  = Addr(1, 'u')
	Alice = Addr(5, 'a')
	Bob   = Addr(5, 'b')
	Carol = Addr(5, 'c')
	Far   = farAddr('f')
	New   = Addr(5, 'n')
)

func farAddr(tag byte) []byte {
	a := Addr(5, tag)
	a[9] = 1
	return a
}

// KV is one stored pair.
type KV struct {
	Key, Val []byte
}

// Account is one account of the world.
type Account struct {
	Addr       []byte
	Nonce      uint64
	Balance    *big.Int
	Code       []byte
	CodeHash   []byte
	CodeMeta   []byte
	Owner      []byte
	UserName   []byte
	NotPayable bool
	Store      []KV
}

// GetCodeMetadata implements the account interface.
func (a *Account) GetCodeMetadata() []byte { return a.CodeMeta }

// GetCodeHash implements the account interface.
func (a *Account) GetCodeHash() []byte { return a.CodeHash }

// GetRootHash implements the account interface.
func (a *Account) GetRootHash() []byte { return nil }

// AccountDataHandler implements the account interface.
func (a *Account) AccountDataHandler() vmcommon.AccountDataHandler { return nil }

// AddToBalance implements the account interface.
func (a *Account) AddToBalance(value *big.Int) error {
	a.Balance = big.NewInt(0).Add(a.Balance, value)
	return nil
}

// GetBalance implements the account interface.
func (a *Account) GetBalance() *big.Int { return big.NewInt(0).Set(a.Balance) }

// ClaimDeveloperRewards implements the account interface.
func (a *Account) ClaimDeveloperRewards([]byte) (*big.Int, error) { return big.NewInt(0), nil }

// GetDeveloperReward implements the account interface.
func (a *Account) GetDeveloperReward() *big.Int { return big.NewInt(0) }

// ChangeOwnerAddress implements the account interface.
func (a *Account) ChangeOwnerAddress([]byte, []byte) error { return nil }

// SetOwnerAddress implements the account interface.
func (a *Account) SetOwnerAddress(o []byte) { a.Owner = o }

// GetOwnerAddress implements the account interface.
func (a *Account) GetOwnerAddress() []byte { return a.Owner }

// SetUserName implements the account interface.
func (a *Account) SetUserName(n []byte) { a.UserName = n }

// GetUserName implements the account interface.
func (a *Account) GetUserName() []byte { return a.UserName }

// AddressBytes implements the account interface.
func (a *Account) AddressBytes() []byte { return a.Addr }

// IncreaseNonce implements the account interface.
func (a *Account) IncreaseNonce(n uint64) { a.Nonce += n }

// GetNonce implements the account interface.
func (a *Account) GetNonce() uint64 { return a.Nonce }

// IsInterfaceNil implements the account interface.
func (a *Account) IsInterfaceNil() bool { return a == nil }

// ErrNoAccount is what the blockchain answers for an unknown account.
var ErrNoAccount = errors.New("account not found")

// World is the blockchain.
type World struct {
	Accs     []*Account
	Epoch    uint32
	Round    uint64
	NonceNow uint64
	Time     uint64
	Seed     []byte
	NewAddr  []byte
	NewAddrs []NewAddrCall
	// Derive makes every creator and nonce get an address of its own.
	Derive   bool
	Hashes   func(nonce uint64) ([]byte, error)
	Token    func(address []byte, tokenID []byte, nonce uint64) (*esdt.ESDigitalToken, error)
	Builtin  func(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error)
	Builtins []string
	// Inactive are built-in functions the protocol knows but has not enabled.
	Inactive []string
	// Dead counts accesses to instances that were already destroyed.
	Dead int
	// Undo counts state the world keeps itself (built-in functions).
	Journal   int
	Reverts   []int
	Snapshots int
	// Compiled code cache.
	Compiled []KV
	NoCache  bool
	// Reads counts GetStorageData.
	StorageReads int

	Contracts []*Contract
	Insts     []*Inst
	Host      arwen.VMHost
	MemLen    int
	PageLen   int
	MaxPages  int
	BuildErr  func(code []byte) error
}

// NewAddrCall records a request for a contract address.
type NewAddrCall struct {
	Creator []byte
	Nonce   uint64
	VMType  []byte
}

// Derived is the address of the contract an account creates at a nonce.
func Derived(creator []byte, nonce uint64) []byte {
	a := make([]byte, 32)
	a[8] = 5
	binary.BigEndian.PutUint64(a[12:], nonce)
	copy(a[20:], creator[30:])
	a[22], a[23] = creator[8], 'd'
	if len(creator) == 32 {
		a[24] = creator[19] + 1
	}
	return a
}

// Acc finds an account.
func (w *World) Acc(addr []byte) *Account {
	for _, a := range w.Accs {
		if bytes.Equal(a.Addr, addr) {
			return a
		}
	}
	return nil
}

// Add adds an account.
func (w *World) Add(a *Account) *Account {
	if a.Balance == nil {
		a.Balance = big.NewInt(0)
	}
	w.Accs = append(w.Accs, a)
	return a
}

// Put stores a pair in an account.
func (a *Account) Put(key, val []byte) {
	for i := range a.Store {
		if bytes.Equal(a.Store[i].Key, key) {
			a.Store[i].Val = val
			return
		}
	}
	a.Store = append(a.Store, KV{key, val})
}

// Get reads a pair of an account.
func (a *Account) Get(key []byte) []byte {
	for i := range a.Store {
		if bytes.Equal(a.Store[i].Key, key) {
			return a.Store[i].Val
		}
	}
	return nil
}

// NewAddress implements the hook.
func (w *World) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	w.NewAddrs = append(w.NewAddrs, NewAddrCall{creator, nonce, vmType})
	if w.Derive {
		return Derived(creator, nonce), nil
	}
	if w.NewAddr == nil {
		return New, nil
	}
	return w.NewAddr, nil
}

// GetStorageData implements the hook.
func (w *World) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	w.StorageReads++
	a := w.Acc(addr)
	if a == nil {
		return nil, nil
	}
	return a.Get(key), nil
}

// GetBlockhash implements the hook.
func (w *World) GetBlockhash(nonce uint64) ([]byte, error) {
	if w.Hashes != nil {
		return w.Hashes(nonce)
	}
	return bytes.Repeat([]byte{7}, 32), nil
}

// LastNonce implements the hook.
func (w *World) LastNonce() uint64 { return w.NonceNow - 1 }

// LastRound implements the hook.
func (w *World) LastRound() uint64 { return w.Round - 1 }

// LastTimeStamp implements the hook.
func (w *World) LastTimeStamp() uint64 { return w.Time - 6 }

// LastRandomSeed implements the hook.
func (w *World) LastRandomSeed() []byte { return bytes.Repeat([]byte{1}, 48) }

// LastEpoch implements the hook.
func (w *World) LastEpoch() uint32 { return w.Epoch }

// GetStateRootHash implements the hook.
func (w *World) GetStateRootHash() []byte { return bytes.Repeat([]byte{2}, 32) }

// CurrentNonce implements the hook.
func (w *World) CurrentNonce() uint64 { return w.NonceNow }

// CurrentRound implements the hook.
func (w *World) CurrentRound() uint64 { return w.Round }

// CurrentTimeStamp implements the hook.
func (w *World) CurrentTimeStamp() uint64 { return w.Time }

// CurrentRandomSeed implements the hook.
func (w *World) CurrentRandomSeed() []byte { return bytes.Repeat([]byte{3}, 48) }

// CurrentEpoch implements the hook.
func (w *World) CurrentEpoch() uint32 { return w.Epoch }

// ProcessBuiltInFunction implements the hook.
func (w *World) ProcessBuiltInFunction(input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	if w.Builtin == nil {
		return nil, errors.New("no built-in functions")
	}
	w.Journal++
	return w.Builtin(input)
}

// GetBuiltinFunctionNames implements the hook.
func (w *World) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	m := make(vmcommon.FunctionNames)
	for _, n := range w.Builtins {
		m[n] = struct{}{}
	}
	return m
}

// GetAllState implements the hook.
func (w *World) GetAllState(address []byte) (map[string][]byte, error) { return nil, nil }

// GetUserAccount implements the hook.
func (w *World) GetUserAccount(addr []byte) (vmcommon.UserAccountHandler, error) {
	a := w.Acc(addr)
	if a == nil {
		return nil, ErrNoAccount
	}
	return a, nil
}

// GetCode implements the hook.
func (w *World) GetCode(acc vmcommon.UserAccountHandler) []byte {
	a := w.Acc(acc.AddressBytes())
	if a == nil {
		return nil
	}
	return a.Code
}

// GetShardOfAddress implements the hook.
func (w *World) GetShardOfAddress(addr []byte) uint32 {
	if len(addr) < 10 {
		return 0
	}
	return uint32(addr[9])
}

// IsSmartContract implements the hook.
func (w *World) IsSmartContract(addr []byte) bool {
	return len(addr) == 32 && addr[8] == 5
}

// IsPayable implements the hook.
func (w *World) IsPayable(addr []byte) (bool, error) {
	a := w.Acc(addr)
	return a == nil || !a.NotPayable, nil
}

// SaveCompiledCode implements the hook.
func (w *World) SaveCompiledCode(hash []byte, code []byte) {
	if w.NoCache {
		return
	}
	for i := range w.Compiled {
		if bytes.Equal(w.Compiled[i].Key, hash) {
			w.Compiled[i].Val = code
			return
		}
	}
	w.Compiled = append(w.Compiled, KV{hash, code})
}

// GetCompiledCode implements the hook.
func (w *World) GetCompiledCode(hash []byte) (bool, []byte) {
	for _, kv := range w.Compiled {
		if bytes.Equal(kv.Key, hash) {
			return true, kv.Val
		}
	}
	return false, nil
}

// ClearCompiledCodes implements the hook.
func (w *World) ClearCompiledCodes() { w.Compiled = nil }

// GetESDTToken implements the hook.
func (w *World) GetESDTToken(address []byte, tokenID []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	if w.Token == nil {
		return &esdt.ESDigitalToken{Value: big.NewInt(0)}, nil
	}
	return w.Token(address, tokenID, nonce)
}

// GetSnapshot implements the hook.
func (w *World) GetSnapshot() int {
	w.Snapshots++
	return w.Journal
}

// RevertToSnapshot implements the hook.
func (w *World) RevertToSnapshot(s int) error {
	w.Reverts = append(w.Reverts, s)
	w.Journal = s
	return nil
}

// IsInterfaceNil implements the hook.
func (w *World) IsInterfaceNil() bool { return w == nil }

type builtin struct{ off bool }

func (builtin) ProcessBuiltinFunction(_, _ vmcommon.UserAccountHandler, _ *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return nil, nil
}
func (builtin) SetNewGasConfig(*vmcommon.GasCost) {}
func (b builtin) IsActive() bool                  { return !b.off }
func (builtin) IsInterfaceNil() bool              { return false }

type container struct{ w *World }

func (c *container) Get(key string) (vmcommon.BuiltinFunction, error) {
	for _, n := range c.w.Builtins {
		if n == key {
			return builtin{}, nil
		}
	}
	for _, n := range c.w.Inactive {
		if n == key {
			return builtin{true}, nil
		}
	}
	return nil, errors.New("not found")
}
func (c *container) Add(string, vmcommon.BuiltinFunction) error     { return nil }
func (c *container) Replace(string, vmcommon.BuiltinFunction) error { return nil }
func (c *container) Remove(string)                                  {}
func (c *container) Len() int                                       { return len(c.w.Builtins) }
func (c *container) Keys() map[string]struct{} {
	m := make(map[string]struct{})
	for _, n := range c.w.Builtins {
		m[n] = struct{}{}
	}
	for _, n := range c.w.Inactive {
		m[n] = struct{}{}
	}
	return m
}
func (c *container) IsInterfaceNil() bool { return c == nil }

// Contract is the code the fake compiler knows.
type Contract struct {
	Code  []byte
	Funcs map[string]func(in *Inst)
	// Sigs overrides the signature of a function.
	Sigs    map[string]wasmer.ExportedFunctionSignature
	NoMem   bool
	Imports []string
}

// Inst is a contract instance.
type Inst struct {
	W       *World
	C       *Contract
	Points  uint64
	Limit   uint64
	BP      uint64
	ctxData uintptr
	Mem     *Mem
	Cleaned int
	Calls   int
	stopped bool
	// FromCache says the instance was made from compiled code.
	FromCache bool
	// NotWired is true until the host set the context data.
	NotWired bool
}

// Mem is a contract memory.
type Mem struct {
	B     []byte
	Page  int
	Max   int
	Grown int
}

// Length implements the memory interface.
func (m *Mem) Length() uint32 { return uint32(len(m.B)) }

// Data implements the memory interface.
func (m *Mem) Data() []byte { return m.B }

// Grow implements the memory interface.
func (m *Mem) Grow(pages uint32) error {
	m.Grown += int(pages)
	if m.Grown > m.Max {
		return errors.New("memory limit")
	}
	nb := make([]byte, len(m.B)+int(pages)*m.Page)
	copy(nb, m.B)
	m.B = nb
	return nil
}

// Destroy implements the memory interface.
func (m *Mem) Destroy() {}

// alive notes an access to an instance that was destroyed.
func (in *Inst) alive() {
	if in.Cleaned > 0 {
		in.W.Dead++
	}
}

// HasMemory implements the instance interface.
func (in *Inst) HasMemory() bool { in.alive(); return !in.C.NoMem }

// SetContextData implements the instance interface.
func (in *Inst) SetContextData(data uintptr) { in.alive(); in.ctxData = data; in.NotWired = false }

// GetPointsUsed implements the instance interface.
func (in *Inst) GetPointsUsed() uint64 { in.alive(); return in.Points }

// SetPointsUsed implements the instance interface.
func (in *Inst) SetPointsUsed(p uint64) { in.alive(); in.Points = p }

// SetGasLimit implements the instance interface.
func (in *Inst) SetGasLimit(l uint64) { in.alive(); in.Limit = l }

// SetBreakpointValue implements the instance interface.
func (in *Inst) SetBreakpointValue(v uint64) { in.alive(); in.BP = v }

// GetBreakpointValue implements the instance interface.
func (in *Inst) GetBreakpointValue() uint64 { in.alive(); return in.BP }

// Cache implements the instance interface.
func (in *Inst) Cache() ([]byte, error) { in.alive(); return in.C.Code, nil }

// Clean implements the instance interface.
func (in *Inst) Clean() { in.Cleaned++ }

// GetExports implements the instance interface.
func (in *Inst) GetExports() wasmer.ExportsMap {
	in.alive()
	m := make(wasmer.ExportsMap)
	for name, f := range in.C.Funcs {
		m[name] = in.wrap(f)
	}
	return m
}

// GetSignature implements the instance interface.
func (in *Inst) GetSignature(name string) (*wasmer.ExportedFunctionSignature, bool) {
	if s, ok := in.C.Sigs[name]; ok {
		return &s, true
	}
	if _, ok := in.C.Funcs[name]; ok {
		return &wasmer.ExportedFunctionSignature{}, true
	}
	return nil, false
}

// GetData implements the instance interface.
func (in *Inst) GetData() uintptr { return in.ctxData }

// GetInstanceCtxMemory implements the instance interface.
func (in *Inst) GetInstanceCtxMemory() wasmer.MemoryHandler { in.alive(); return in.Mem }

// GetMemory implements the instance interface.
func (in *Inst) GetMemory() wasmer.MemoryHandler { in.alive(); return in.Mem }

// IsFunctionImported implements the instance interface.
func (in *Inst) IsFunctionImported(name string) bool {
	for _, n := range in.C.Imports {
		if n == name {
			return true
		}
	}
	return false
}

var errTrap = errors.New("trap")

// wrap runs a function the way the engine does: a non-zero breakpoint value or
// exhausted gas ends it with an error.
func (in *Inst) wrap(f func(in *Inst)) wasmer.ExportedFunctionCallback {
	return func(...interface{}) (wasmer.Value, error) {
		in.stopped = false
		in.Calls++
		if in.Cleaned > 0 {
			nd.Fail("a contract runs on an instance that was already destroyed")
		}
		f(in)
		if in.BP != 0 {
			in.stopped = true
		}
		if in.stopped {
			return wasmer.Void(), errTrap
		}
		return wasmer.Void(), nil
	}
}

// Stopped tells whether execution has ended.
func (in *Inst) Stopped() bool { return in.stopped }

// Do runs one step unless execution already ended.
func (in *Inst) Do(f func()) {
	if in.stopped {
		return
	}
	if in.BP != 0 {
		in.stopped = true
		return
	}
	if in.Points > in.Limit {
		in.BP = uint64(arwen.BreakpointOutOfGas)
		in.stopped = true
		return
	}
	f()
	if in.BP != 0 {
		in.stopped = true
	}
}

// Trap ends execution with an engine error.
func (in *Inst) Trap() { in.Do(func() { in.stopped = true }) }

// Burn uses gas in the contract's own instructions.
func (in *Inst) Burn(points uint64) {
	in.Do(func() {
		s := in.Points + points
		if s < in.Points {
			s = ^uint64(0)
		}
		in.Points = s
	})
}

// Ctx is what the engine passes to an API function.
func (in *Inst) Ctx() unsafe.Pointer { return unsafe.Pointer(&in.ctxData) }

// Put writes the instance's own memory.
func (in *Inst) Put(off int, b []byte) { copy(in.Mem.B[off:], b) }

type builder struct{ w *World }

func (b *builder) make(code []byte, o wasmer.CompilationOptions, cached bool) (wasmer.InstanceHandler, error) {
	w := b.w
	if w.BuildErr != nil {
		if err := w.BuildErr(code); err != nil {
			return nil, err
		}
	}
	for _, c := range w.Contracts {
		if bytes.Equal(c.Code, code) {
			ml, pl := w.MemLen, w.PageLen
			if ml == 0 {
				ml = 256
			}
			if pl == 0 {
				pl = 16
			}
			in := &Inst{W: w, C: c, Limit: o.GasLimit, FromCache: cached, NotWired: true,
				Mem: &Mem{B: make([]byte, ml), Page: pl, Max: w.MaxPages}}
			w.Insts = append(w.Insts, in)
			return in, nil
		}
	}
	return nil, errors.New("compilation failed")
}

// NewInstanceWithOptions implements the builder.
func (b *builder) NewInstanceWithOptions(code []byte, o wasmer.CompilationOptions) (wasmer.InstanceHandler, error) {
	return b.make(code, o, false)
}

// NewInstanceFromCompiledCodeWithOptions implements the builder.
func (b *builder) NewInstanceFromCompiledCodeWithOptions(code []byte, o wasmer.CompilationOptions) (wasmer.InstanceHandler, error) {
	return b.make(code, o, true)
}

// Opt configures a host.
type Opt struct {
	Warm   bool
	V2     uint32
	AOT    uint32
	Dyn    uint32
	V3     uint32
	ESDT   uint32
	GasMap config.GasScheduleMap
	Cost   uint64
	Lock   uint64
	// Builtins and Inactive are the names of the built-in functions.
	Builtins []string
	Inactive []string
}

// ProtectedPrefix is the protocol's protected key prefix.
const ProtectedPrefix = "ELROND"

// NewWorld is an empty world.
func NewWorld() *World {
	return &World{NonceNow: 10, Round: 12, Time: 1000, MaxPages: 2}
}

// Params are the parameters of a host over the world.
func Params(w *World, o Opt) *arwen.VMHostParameters {
	gm := o.GasMap
	if gm == nil {
		c, l := o.Cost, o.Lock
		if c == 0 {
			c = 1
		}
		if l == 0 {
			l = 100
		}
		gm = config.MakeGasMap(c, l)
	}
	if o.Builtins != nil {
		w.Builtins = o.Builtins
	}
	if o.Inactive != nil {
		w.Inactive = o.Inactive
	}
	return &arwen.VMHostParameters{
		VMType: []byte{5, 0}, BlockGasLimit: 1000000, GasSchedule: gm,
		BuiltInFuncContainer: &container{w}, ElrondProtectedKeyPrefix: []byte(ProtectedPrefix),
		ArwenV2EnableEpoch: o.V2, AheadOfTimeEnableEpoch: o.AOT, DynGasLockEnableEpoch: o.Dyn,
		ArwenV3EnableEpoch: o.V3, ArwenESDTFunctionsEnableEpoch: o.ESDT, UseWarmInstance: o.Warm,
	}
}

// NewHost makes a real host over the world.
func NewHost(w *World, o Opt) arwen.VMHost {
	h, err := arwenHost.NewArwenVM(w, Params(w, o))
	if err != nil {
		nd.Fail("the host starts: " + err.Error())
	}
	Mount(w, h)
	return h
}

// Mount gives a host the contracts of the world.
func Mount(w *World, h arwen.VMHost) {
	h.Runtime().ReplaceInstanceBuilder(&builder{w})
	w.Host = h
}

// Env is a world with contracts A, B, C and a user.
type Env struct {
	W       *World
	H       arwen.VMHost
	A, B, C *Contract
	AccA    *Account
	AccB    *Account
	AccC    *Account
	AccU    *Account
}

// NewEnv builds the standard world; the contracts have no functions yet.
func NewEnv(o Opt) *Env {
	w := NewWorld()
	e := &Env{W: w}
	mk := func(addr []byte, code byte) (*Contract, *Account) {
		c := &Contract{Code: []byte{code, code, code, code}, Funcs: map[string]func(*Inst){}}
		w.Contracts = append(w.Contracts, c)
		a := w.Add(&Account{Addr: addr, Code: c.Code, CodeHash: []byte{0x80, code}, CodeMeta: []byte{5, 2}, Owner: User, Balance: big.NewInt(1000)})
		return c, a
	}
	e.A, e.AccA = mk(Alice, 'A')
	e.B, e.AccB = mk(Bob, 'B')
	e.C, e.AccC = mk(Carol, 'C')
	e.AccU = w.Add(&Account{Addr: User, Balance: big.NewInt(100000), Nonce: 3})
	e.H = NewHost(w, o)
	return e
}

// Input builds a direct call of the user to a contract.
func Input(to []byte, fn string, gas uint64, args ...[]byte) *vmcommon.ContractCallInput {
	return &vmcommon.ContractCallInput{
		VMInput: vmcommon.VMInput{
			CallerAddr: User, Arguments: args, CallValue: big.NewInt(0), GasPrice: 1, GasProvided: gas,
			OriginalTxHash: []byte("originalTx"), CurrentTxHash: []byte("currentTx"), PrevTxHash: []byte("prevTx"),
		},
		RecipientAddr: to, Function: fn,
	}
}

// Call runs the host like the node does.
func (e *Env) Call(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return e.H.RunSmartContractCall(in)
}

// NoCrash asserts that the host answered with an output instead of crashing.
func NoCrash(out *vmcommon.VMOutput, err error) {
	if err != nil {
		nd.Fail("the host answers every input without crashing: " + err.Error())
	}
	if out == nil {
		nd.Fail("the host always returns an output")
	}
}
