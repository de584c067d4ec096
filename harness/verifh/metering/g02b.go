package metering

import (
	"bytes"
	"math/big"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// cost runs one step and tells what it charged.
func cost(in *vmh.Inst, f func()) (uint64, bool) {
	before := in.Points
	in.Do(f)
	return in.Points - before, in.BP == 0
}

// beyond is the number of bytes of a key that are paid for.
func beyond(key []byte) uint64 {
	if len(key) > 32 {
		return uint64(len(key) - 32)
	}
	return 0
}

// storagePrices are the symbolic prices of storage.
type storagePrices struct {
	p                                      prices
	load, store, smallLoad, smallStore, bl uint64
}

func symStorage(s *vmh.Sched) storagePrices {
	return storagePrices{
		p: prices{copyB: s.Sym(vmh.Base, "DataCopyPerByte"), persist: s.Sym(vmh.Base, "PersistPerByte"),
			store: s.Sym(vmh.Base, "StorePerByte"), release: s.Sym(vmh.Base, "ReleasePerByte")},
		load: s.Sym(vmh.Elrond, "StorageLoad"), store: s.Sym(vmh.Elrond, "StorageStore"),
		smallLoad: s.Sym(vmh.Elrond, "Int64StorageLoad"), smallStore: s.Sym(vmh.Elrond, "Int64StorageStore"),
		bl: s.Sym(vmh.Bigint, "BigIntStorageLoadUnsigned"),
	}
}

// reads is the number of ways to read a key.
const reads = 6

// read reads a key in one of several ways and returns what that has to cost.
func read(in *vmh.Inst, kind int, addr, key, val []byte, q storagePrices) (uint64, uint64, bool) {
	n := uint64(len(val))
	k := beyond(key)
	c := q.p.copyB
	in.Put(0, addr)
	in.Put(32, key)
	l := int32(len(key))
	var used uint64
	var ok bool
	var want uint64
	switch kind {
	case 0:
		used, ok = cost(in, func() { api.XStorageLoad(in.Ctx(), 32, l, 128) })
		want = q.load + c*(k+n)
	case 1:
		used, ok = cost(in, func() { api.XStorageLoadFromAddress(in.Ctx(), 0, 32, l, 128) })
		want = q.load + c*(k+n)
	case 2:
		used, ok = cost(in, func() { api.XStorageLoadLength(in.Ctx(), 32, l) })
		want = q.load
	case 3:
		used, ok = cost(in, func() { api.XSmallIntStorageLoadUnsigned(in.Ctx(), 32, l) })
		want = q.smallLoad + c*(k+n)
	case 4:
		used, ok = cost(in, func() { api.XSmallIntStorageLoadSigned(in.Ctx(), 32, l) })
		want = q.smallLoad + c*(k+n)
	default:
		used, ok = cost(in, func() { api.XBigIntStorageLoadUnsigned(in.Ctx(), 32, l, 4) })
		want = q.bl + c*(k+n)
	}
	return used, want, ok
}

// G02_Repeated reads the same key again and again, after writes as well: every
// read has its price, whether the value comes from the ledger or was seen before.
func G02_Repeated() {
	s := vmh.NewSched()
	s.Bits = 16
	q := symStorage(s)
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	key := []byte("key")
	if nd.Bool("longkey") {
		key = []byte("a key of more than thirty-two bytes")
	}
	old := []byte{1, 2, 3}[:3*nd.Choice("old", 2)]
	e.AccA.Put(key, old)
	first := nd.Choice("first", 4)
	a, b := nd.Choice("read1", 2), nd.Choice("read2", reads)
	checked := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		val := old
		switch first {
		case 1:
			val = []byte{7, 7}
			in.Store(key, val)
		case 2:
			val = nil
			in.Store(key, val)
		case 3:
			in.Store(key, old)
		}
		used, want, ok := read(in, a, vmh.Alice, key, val, q)
		nd.Assert(ok && used == want, "the first read of a key costs its price")
		used, want, ok = read(in, b, vmh.Alice, key, val, q)
		nd.Assert(ok && used == want, "a repeated read of a key costs its price")
		checked = true
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	nd.Assert(checked && out.ReturnCode == vmcommon.Ok, "reading succeeds")
	nd.Reach("done")
}

// G02_Writes is what storing costs for keys beyond 32 bytes, for every way of storing.
func G02_Writes() {
	s := vmh.NewSched()
	s.Bits = 16
	q := symStorage(s)
	bs := s.Sym(vmh.Bigint, "BigIntStorageStoreUnsigned")
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	key := []byte("a key of more than thirty-two bytes")
	l := int32(len(key))
	if nd.Bool("short") {
		key = key[:18+nd.Choice("len", 3)]
		l = int32(len(key))
	}
	n := nd.Choice("n", 3)
	val := []byte{8, 9}[:n]
	kind := nd.Choice("kind", 7)
	twice := nd.Bool("twice")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Put(32, key)
		in.Put(80, val)
		x := int64(0)
		for _, b := range val {
			x = x<<8 | int64(b)
		}
		e.H.BigInt().GetOne(1).SetInt64(x)
		do := func() (uint64, bool) {
			return cost(in, func() {
				switch kind {
				case 0:
					api.XStorageStore(in.Ctx(), 32, l, 80, int32(n))
				case 1:
					api.XSmallIntStorageStoreUnsigned(in.Ctx(), 32, l, x)
				case 2:
					api.XSmallIntStorageStoreSigned(in.Ctx(), 32, l, x)
				case 3:
					api.XInt64storageStore(in.Ctx(), 32, l, x)
				case 4:
					api.XBigIntStorageStoreUnsigned(in.Ctx(), 32, l, 1)
				case 5:
					api.XSetStorageLock(in.Ctx(), 32, l, x)
				case 6:
					api.XClearStorageLock(in.Ctx(), 32, l)
				}
			})
		}
		own, size, k := q.smallStore, uint64(n), beyond(key)
		switch kind {
		case 0:
			own = q.store
		case 2: // signed: 8 as 8, 0x0809 as two bytes
		case 4:
			own = bs
		case 5, 6:
			k = beyond(append([]byte("ARWEN@TIMELOCK"), key...))
			if kind == 6 {
				size = 0
			}
		}
		used, ok := do()
		nd.Assert(ok && used == own+q.p.copyB*k+q.p.store*size, "a new value costs its price, the key's bytes beyond 32 and the store price of its bytes")
		if twice {
			used, ok = do()
			nd.Assert(ok && used == own+q.p.copyB*(k+size), "the same value again costs its price, the key's bytes beyond 32 and the copying of its bytes")
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok && out.GasRefund.Sign() == 0, "writing succeeds")
	nd.Reach("done")
}

// indexed is the operations that take a number of an argument, a result or a handle.
func indexed() []op {
	var l []op
	for _, o := range append(reading(), bigints()...) {
		switch o.name {
		case "getArgumentLength", "getArgument", "getReturnDataSize", "getReturnData", "smallIntGetUnsignedArgument",
			"smallIntGetSignedArgument", "int64getArgument", "bigIntGetUnsignedArgument", "bigIntGetSignedArgument":
			l = append(l, o)
		}
	}
	return l
}

// G02_AnyIndex asks for an argument or a result of any number.
func G02_AnyIndex() {
	ops := indexed()
	o := ops[nd.Choice("op", len(ops))]
	s := vmh.NewSched()
	own := s.Sym(o.section, o.entry)
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	i := nd.I32("i")
	checked := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Finish([]byte{1, 2})
		used, ok := cost(in, func() { o.run(in.Ctx(), i) })
		if ok {
			nd.Assert(used == own, "a request for any index costs the price of the operation: "+o.name)
			checked = true
		} else {
			nd.Assert(used >= own, "a refused request costs at least the price of the operation: "+o.name)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50, []byte{1}, []byte{2, 3}))
	vmh.NoCrash(out, err)
	if checked {
		nd.Reach("done")
	}
}

// G02_AnyHandle runs the big-integer operations on handles nobody made.
func G02_AnyHandle() {
	type hop struct {
		entry, alt string
		run        func(in *vmh.Inst, a, b int32)
	}
	sub := "BigIntSub"
	ops := []hop{
		{"BigIntUnsignedByteLength", "", func(in *vmh.Inst, a, b int32) { api.XBigIntUnsignedByteLength(in.Ctx(), a) }},
		{"BigIntSignedByteLength", "", func(in *vmh.Inst, a, b int32) { api.XBigIntSignedByteLength(in.Ctx(), a) }},
		{"BigIntGetUnsignedBytes", "", func(in *vmh.Inst, a, b int32) { api.XBigIntGetUnsignedBytes(in.Ctx(), a, 0) }},
		{"BigIntGetSignedBytes", "", func(in *vmh.Inst, a, b int32) { api.XBigIntGetSignedBytes(in.Ctx(), a, 0) }},
		{"BigIntIsInt64", "", func(in *vmh.Inst, a, b int32) { api.XBigIntIsInt64(in.Ctx(), a) }},
		{"BigIntGetInt64", "", func(in *vmh.Inst, a, b int32) { api.XBigIntGetInt64(in.Ctx(), a) }},
		{"BigIntSub", "", func(in *vmh.Inst, a, b int32) { api.XBigIntSub(in.Ctx(), a, b, a) }},
		{"BigIntMul", "", func(in *vmh.Inst, a, b int32) { api.XBigIntMul(in.Ctx(), b, a, b) }},
		{"BigIntTDiv", "", func(in *vmh.Inst, a, b int32) { api.XBigIntTDiv(in.Ctx(), 3, a, b) }},
		{"BigIntSign", "", func(in *vmh.Inst, a, b int32) { api.XBigIntSign(in.Ctx(), a) }},
		{"BigIntCmp", "", func(in *vmh.Inst, a, b int32) { api.XBigIntCmp(in.Ctx(), a, b) }},
		{"BigIntFinishUnsigned", "", func(in *vmh.Inst, a, b int32) { api.XBigIntFinishUnsigned(in.Ctx(), a) }},
		{"BigIntFinishSigned", "", func(in *vmh.Inst, a, b int32) { api.XBigIntFinishSigned(in.Ctx(), a) }},
		{"BigIntGetCallValue", "", func(in *vmh.Inst, a, b int32) { api.XBigIntGetCallValue(in.Ctx(), a) }},
		{"BigIntGetExternalBalance", "", func(in *vmh.Inst, a, b int32) { api.XBigIntGetExternalBalance(in.Ctx(), 0, a) }},
		{"BigIntAdd", sub, func(in *vmh.Inst, a, b int32) { api.XBigIntAdd(in.Ctx(), a, b, a) }},
		{"BigIntNeg", sub, func(in *vmh.Inst, a, b int32) { api.XBigIntNeg(in.Ctx(), b, a) }},
		{"BigIntTMod", sub, func(in *vmh.Inst, a, b int32) { api.XBigIntTMod(in.Ctx(), 3, a, b) }},
	}
	o := ops[nd.Choice("op", len(ops))]
	s := vmh.NewSched()
	own := s.Sym(vmh.Bigint, o.entry)
	found := own
	if o.alt != "" {
		found = s.Sym(vmh.Bigint, o.alt)
	}
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	a := nd.I32("a")
	b := int32(-1)
	if nd.Bool("known") {
		b = 1
	}
	checked := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		e.H.BigInt().GetOne(1).SetInt64(0)
		used, ok := cost(in, func() { o.run(in, a, b) })
		if ok {
			nd.Assert(used == own || used == found, "an operation on any handle costs its price: "+o.entry)
			checked = true
		} else {
			nd.Assert(used >= own || used >= found, "a refused operation on any handle costs at least its price: "+o.entry)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	if checked {
		nd.Reach("done")
	}
}

// big is the copying an operand of more than 32 bytes costs: all its whole bytes.
func big32(v *big.Int) uint64 {
	if n := v.BitLen() / 8; n > 32 {
		return uint64(n)
	}
	return 0
}

// G02_BigOperands is what operations on numbers of more than 32 bytes cost.
func G02_BigOperands() {
	s := vmh.NewSched()
	s.Bits = 16
	copyB, persist := s.Sym(vmh.Base, "DataCopyPerByte"), s.Sym(vmh.Base, "PersistPerByte")
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	x := new(big.Int).SetBytes(bytes.Repeat([]byte{0x89}, 32+nd.Choice("x", 2)))
	y := new(big.Int).SetBytes(bytes.Repeat([]byte{5}, 32+2*nd.Choice("y", 2)))
	type bop struct {
		name     string
		run      func(in *vmh.Inst)
		a, b, to bool
	}
	ops := []bop{
		{"bigIntAdd", func(in *vmh.Inst) { api.XBigIntAdd(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntSub", func(in *vmh.Inst) { api.XBigIntSub(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntMul", func(in *vmh.Inst) { api.XBigIntMul(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntTDiv", func(in *vmh.Inst) { api.XBigIntTDiv(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntTMod", func(in *vmh.Inst) { api.XBigIntTMod(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntEDiv", func(in *vmh.Inst) { api.XBigIntEDiv(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntEMod", func(in *vmh.Inst) { api.XBigIntEMod(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntNeg", func(in *vmh.Inst) { api.XBigIntNeg(in.Ctx(), 3, 1) }, true, false, false},
		{"bigIntAbs", func(in *vmh.Inst) { api.XBigIntAbs(in.Ctx(), 3, 1) }, true, false, false},
		{"bigIntSign", func(in *vmh.Inst) { api.XBigIntSign(in.Ctx(), 1) }, true, false, false},
		{"bigIntCmp", func(in *vmh.Inst) { api.XBigIntCmp(in.Ctx(), 1, 2) }, true, true, false},
		{"bigIntNot", func(in *vmh.Inst) { api.XBigIntNot(in.Ctx(), 3, 1) }, true, false, false},
		{"bigIntAnd", func(in *vmh.Inst) { api.XBigIntAnd(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntOr", func(in *vmh.Inst) { api.XBigIntOr(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntXor", func(in *vmh.Inst) { api.XBigIntXor(in.Ctx(), 3, 1, 2) }, true, true, false},
		{"bigIntShl", func(in *vmh.Inst) { api.XBigIntShl(in.Ctx(), 3, 1, 9) }, true, false, true},
		{"bigIntShr", func(in *vmh.Inst) { api.XBigIntShr(in.Ctx(), 3, 1, 1) }, true, false, true},
	}
	k := nd.Choice("op", len(ops)+4)
	checked := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		b := e.H.BigInt()
		b.GetOne(1).Set(x)
		b.GetOne(2).Set(y)
		var used uint64
		var ok bool
		if k < len(ops) {
			o := ops[k]
			used, ok = cost(in, func() { o.run(in) })
			want := uint64(0)
			if o.a {
				want += big32(x)
			}
			if o.b {
				want += big32(y)
			}
			if o.to {
				want += big32(b.GetOne(3))
			}
			nd.Assert(ok && used == 1+copyB*want, "operands of more than 32 bytes are paid for byte by byte: "+o.name)
			checked = true
			return
		}
		n, per := uint64(len(x.Bytes())), persist
		switch k - len(ops) {
		case 0:
			used, ok = cost(in, func() { api.XBigIntFinishUnsigned(in.Ctx(), 1) })
		case 1:
			used, ok = cost(in, func() { api.XBigIntFinishSigned(in.Ctx(), 1) })
			n++ // the sign needs a byte
		case 2:
			used, ok = cost(in, func() { api.XBigIntGetUnsignedBytes(in.Ctx(), 1, 0) })
			per = copyB
		case 3:
			used, ok = cost(in, func() { api.XBigIntGetSignedBytes(in.Ctx(), 1, 0) })
			n++
			per = copyB
		}
		nd.Assert(ok && used == 1+per*n, "a long number is paid for byte by byte when it is returned or copied")
		checked = true
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	nd.Assert(checked && out.ReturnCode == vmcommon.Ok, "long numbers are accepted")
	nd.Reach("done")
}

// G02_Calls is what starting another execution costs: the price of the operation, the
// copying of its arguments and what the other execution uses, and no more.
func G02_Calls() {
	s := vmh.NewSched()
	s.Bits = 8
	entries := []string{"ExecuteOnDestContext", "ExecuteOnDestContext", "ExecuteOnSameContext", "DelegateExecution", "ExecuteReadOnly", "CreateContract", "CreateContract"}
	kind := nd.Choice("kind", len(entries))
	strict := kind >= 5 && nd.Bool("strict")
	own := s.Sym(vmh.Elrond, entries[kind])
	copyB := s.Sym(vmh.Base, "DataCopyPerByte")
	compile := s.Sym(vmh.Base, "CompilePerByte")
	aot := s.Sym(vmh.Base, "AoTPreparePerByte")
	getCode := s.Sym(vmh.Base, "GetCode")
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	burn := uint64(nd.U8("burn"))
	ok := true
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Burn(burn)
		ok = ok && nd.Choice("end", 2) == 0
		if !ok {
			in.FailWith(0)
		}
	}
	e.B.Funcs["init"] = e.B.Funcs["g"]
	args := [][]byte{{1}, {2, 3}}[:nd.Choice("args", 3)]
	data := uint64(0)
	for _, a := range args {
		data += uint64(len(a))
	}
	const limit = 1 << 40
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		z := vmh.Zero32()
		switch kind {
		case 0:
			in.Nested(vmh.Dest, limit, vmh.Bob, z, "g", args...)
		case 1:
			in.Nested(vmh.DestByCaller, limit, vmh.Bob, z, "g", args...)
		case 2:
			in.Nested(vmh.Same, limit, vmh.Bob, z, "g", args...)
		case 3:
			in.Nested(vmh.Delegate, limit, vmh.Bob, z, "g", args...)
		case 4:
			in.Nested(vmh.ReadOnly, limit, vmh.Bob, z, "g", args...)
		case 5:
			in.Create(limit, z, []byte("BBBB"), []byte{5, 2}, args...)
		case 6:
			in.CreateFrom(limit, z, vmh.Bob, []byte{5, 2}, args...)
		}
	}
	const gas = 1 << 50
	input := vmh.Input(vmh.Alice, "f", gas)
	input.CallerAddr = vmh.User
	out, err := e.Call(input)
	vmh.NoCrash(out, err)
	if kind >= 5 || ok {
		nd.Assert(out.ReturnCode == vmcommon.Ok, "the call succeeds")
	}
	if out.ReturnCode != vmcommon.Ok {
		nd.Reach("failed")
		return
	}
	total := gas - out.GasRemaining
	initial := 4*aot + getCode
	want := initial + own + copyB*data
	if ok {
		want += initial + burn
	} else {
		want += limit
	}
	if kind < 5 {
		nd.Assert(total == want, "starting another execution costs its price, its arguments and what it uses: "+entries[kind])
		nd.Reach("called")
		return
	}
	found := want - initial + 4*compile
	nd.Assert(total == want+4*compile || total == found, "deploying costs nothing but its price, its arguments, compiling and what the new contract uses")
	nd.Reach("deployed")
	if !strict {
		return
	}
	nd.Assert(total == want+4*compile, "deploying does not change what the deploying contract's own start costs")
}

// needs is what the start of a call of a four-byte contract costs with all prices 1.
const needs = 5

// G02_Limit gives a call any gas and lets it need any gas.
func G02_Limit() {
	gas, burn := uint64(nd.U16("gas")), nd.U64("burn")
	e := vmh.NewEnv(vmh.Opt{})
	last := nd.Choice("last", 3)
	e.AccA.Put([]byte("k"), []byte{1})
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		switch last {
		case 0:
			in.Burn(burn)
		case 1:
			in.Store([]byte("k"), []byte{1, 2})
			in.Burn(burn)
		case 2:
			in.Burn(burn)
			in.Finish([]byte{1})
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	need := []uint64{0, 1 + 1 + 1, 1 + 1}[last]
	if gas >= needs+need && burn <= gas-needs-need {
		nd.Assert(out.ReturnCode == vmcommon.Ok, "a call that needs no more gas than it has succeeds")
		nd.Assert(out.GasRemaining == gas-needs-need-burn, "what a call does not need remains")
		nd.Reach("enough")
	} else {
		nd.Assert(out.ReturnCode == vmcommon.OutOfGas, "a call that needs more gas than it has ends as out of gas")
		vmh.CheckFailed(out)
		nd.Reach("short")
	}
}

// G02_DeployLimit does the same for deployments by users.
func G02_DeployLimit() {
	gas, burn := uint64(nd.U16("gas")), nd.U64("burn")
	e := vmh.NewEnv(vmh.Opt{})
	upgrade := nd.Bool("upgrade")
	e.B.Funcs["init"] = func(in *vmh.Inst) { in.Burn(burn) }
	e.AccB.Owner = vmh.User
	var out *vmcommon.VMOutput
	var err error
	if upgrade {
		out, err = e.Call(vmh.Input(vmh.Bob, "upgradeContract", gas, []byte("BBBB"), []byte{5, 2}))
	} else {
		out, err = e.H.RunSmartContractCreate(vmh.CreateInput([]byte("BBBB"), []byte{5, 2}, gas))
	}
	vmh.NoCrash(out, err)
	if gas >= needs && burn <= gas-needs {
		nd.Assert(out.ReturnCode == vmcommon.Ok, "a deployment that needs no more gas than it has succeeds")
		nd.Assert(out.GasRemaining == gas-needs-burn, "what a deployment does not need remains")
		nd.Reach("enough")
	} else {
		nd.Assert(out.ReturnCode == vmcommon.OutOfGas, "a deployment that needs more gas than it has ends as out of gas")
		vmh.CheckFailed(out)
		nd.Reach("short")
	}
}

// G02_NestedLimit gives a nested call any gas and lets the callee need any gas.
func G02_NestedLimit() {
	gas, limit, burn := uint64(nd.U16("gas")), uint64(nd.U16("limit")), uint64(nd.U16("burn"))
	before := uint64(nd.U8("before"))
	nd.Assume(gas >= 300)
	e := vmh.NewEnv(vmh.Opt{})
	kind := nd.Choice("kind", 5)
	tail := nd.Bool("tail")
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Burn(burn)
		if tail {
			in.Do(func() {})
		}
	}
	r := int32(-9)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Burn(before)
		r = in.Nested([]int{vmh.Dest, vmh.Same, vmh.Delegate, vmh.ReadOnly, vmh.DestByCaller}[kind], int64(limit), vmh.Bob, vmh.Zero32(), "g")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	have := gas - needs - before - 1
	if limit < have {
		have = limit
	}
	if have >= needs && burn <= have-needs {
		nd.Assert(r == 0 && out.ReturnCode == vmcommon.Ok, "a nested call that needs no more gas than it was given succeeds")
		nd.Assert(out.GasRemaining == gas-needs-before-1-needs-burn, "what a nested call does not need returns to the caller")
		nd.Reach("enough")
		return
	}
	nd.Reach("short")
	if tail || kind == 0 || kind == 4 {
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a nested call that needs more gas than it was given fails")
	} else {
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a call in the caller's context that needs more gas than it was given fails")
	}
}

// G02_CreateLimit does the same for deployments by contracts.
func G02_CreateLimit() {
	limit, burn := uint64(nd.U16("limit")), nd.U64("burn")
	const gas = 1 << 20
	e := vmh.NewEnv(vmh.Opt{})
	e.B.Funcs["init"] = func(in *vmh.Inst) { in.Burn(burn) }
	from := nd.Bool("from")
	r := int32(-9)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		if from {
			r, _ = in.CreateFrom(int64(limit), vmh.Zero32(), vmh.Bob, []byte{5, 2})
		} else {
			r, _ = in.Create(int64(limit), vmh.Zero32(), []byte("BBBB"), []byte{5, 2})
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the creator goes on")
	nd.Assert(gas-out.GasRemaining <= needs+1+limit+4, "a deployment costs its creator no more than its limit")
	if limit >= needs && burn <= limit-needs {
		nd.Assert(r == 0, "a deployment by a contract that needs no more gas than it was given succeeds")
		nd.Reach("enough")
	} else {
		nd.Assert(r != 0, "a deployment by a contract that needs more gas than it was given fails")
		nd.Reach("short")
	}
}
