package metering

import (
	"math/big"
	"unsafe"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/cryptoapi"
	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// prices are the symbolic prices of one run.
type prices struct {
	own, alt                       uint64
	copyB, persist, store, release uint64
}

// op is one API operation and what it costs.
type op struct {
	name, section, entry string
	// alt is the schedule entry the code is known to use instead.
	alt string
	// run does it with n bytes of data.
	run func(c unsafe.Pointer, n int32)
	// extra is what it costs on top of its own price.
	extra func(p prices, n uint64) uint64
	// times is how many times the own price is due (0 means once).
	times uint64
	// found is a known wrong extra.
	found func(p prices, n uint64) uint64
}

func perCopy(p prices, n uint64) uint64    { return n * p.copyB }
func perPersist(p prices, n uint64) uint64 { return n * p.persist }

const (
	memAddr  = 0
	memValue = 32
	memData  = 64
	memOut   = 128
)

func simple(name, entry string, run func(c unsafe.Pointer, n int32)) op {
	return op{name: name, section: vmh.Elrond, entry: entry, run: run}
}

func bigop(name, entry, alt string, run func(c unsafe.Pointer, n int32)) op {
	return op{name: name, section: vmh.Bigint, entry: entry, alt: alt, run: run}
}

// reading is the operations that read the environment.
func reading() []op {
	return []op{
		simple("getGasLeft", "GetGasLeft", func(c unsafe.Pointer, n int32) { api.XGetGasLeft(c) }),
		simple("getSCAddress", "GetSCAddress", func(c unsafe.Pointer, n int32) { api.XGetSCAddress(c, memOut) }),
		simple("getOwnerAddress", "GetOwnerAddress", func(c unsafe.Pointer, n int32) { api.XGetOwnerAddress(c, memOut) }),
		simple("getShardOfAddress", "GetShardOfAddress", func(c unsafe.Pointer, n int32) { api.XGetShardOfAddress(c, memAddr) }),
		simple("isSmartContract", "IsSmartContract", func(c unsafe.Pointer, n int32) { api.XIsSmartContract(c, memAddr) }),
		simple("getExternalBalance", "GetExternalBalance", func(c unsafe.Pointer, n int32) { api.XGetExternalBalance(c, memAddr, memOut) }),
		simple("blockHash", "GetBlockHash", func(c unsafe.Pointer, n int32) { api.XBlockHash(c, 5, memOut) }),
		simple("getESDTBalance", "GetExternalBalance", func(c unsafe.Pointer, n int32) { api.XGetESDTBalance(c, memAddr, memData, n, 0, memOut) }),
		simple("getESDTNFTNameLength", "GetExternalBalance", func(c unsafe.Pointer, n int32) { api.XGetESDTNFTNameLength(c, memAddr, memData, n, 0) }),
		simple("getESDTNFTAttributeLength", "GetExternalBalance", func(c unsafe.Pointer, n int32) { api.XGetESDTNFTAttributeLength(c, memAddr, memData, n, 0) }),
		simple("getESDTNFTURILength", "GetExternalBalance", func(c unsafe.Pointer, n int32) { api.XGetESDTNFTURILength(c, memAddr, memData, n, 0) }),
		simple("getESDTTokenData", "GetExternalBalance", func(c unsafe.Pointer, n int32) {
			api.XGetESDTTokenData(c, memAddr, memData, n, 0, 1, memOut, memOut, memOut, memOut, memOut, 2, memOut)
		}),
		simple("getArgumentLength", "GetArgument", func(c unsafe.Pointer, n int32) { api.XGetArgumentLength(c, n) }),
		simple("getArgument", "GetArgument", func(c unsafe.Pointer, n int32) { api.XGetArgument(c, n, memOut) }),
		simple("getFunction", "GetFunction", func(c unsafe.Pointer, n int32) { api.XGetFunction(c, memOut) }),
		simple("getNumArguments", "GetNumArguments", func(c unsafe.Pointer, n int32) { api.XGetNumArguments(c) }),
		simple("getCaller", "GetCaller", func(c unsafe.Pointer, n int32) { api.XGetCaller(c, memOut) }),
		simple("checkNoPayment", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XCheckNoPayment(c) }),
		simple("callValue", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XCallValue(c, memOut) }),
		simple("getESDTValue", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XGetESDTValue(c, memOut) }),
		simple("getESDTTokenName", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XGetESDTTokenName(c, memOut) }),
		simple("getESDTTokenNonce", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XGetESDTTokenNonce(c) }),
		simple("getESDTTokenType", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XGetESDTTokenType(c) }),
		simple("getCallValueTokenName", "GetCallValue", func(c unsafe.Pointer, n int32) { api.XGetCallValueTokenName(c, memOut, memOut+32) }),
		simple("getBlockTimestamp", "GetBlockTimeStamp", func(c unsafe.Pointer, n int32) { api.XGetBlockTimestamp(c) }),
		simple("getBlockNonce", "GetBlockNonce", func(c unsafe.Pointer, n int32) { api.XGetBlockNonce(c) }),
		simple("getBlockRound", "GetBlockRound", func(c unsafe.Pointer, n int32) { api.XGetBlockRound(c) }),
		simple("getBlockEpoch", "GetBlockEpoch", func(c unsafe.Pointer, n int32) { api.XGetBlockEpoch(c) }),
		simple("getBlockRandomSeed", "GetBlockRandomSeed", func(c unsafe.Pointer, n int32) { api.XGetBlockRandomSeed(c, memOut) }),
		simple("getStateRootHash", "GetStateRootHash", func(c unsafe.Pointer, n int32) { api.XGetStateRootHash(c, memOut) }),
		simple("getPrevBlockTimestamp", "GetBlockTimeStamp", func(c unsafe.Pointer, n int32) { api.XGetPrevBlockTimestamp(c) }),
		simple("getPrevBlockNonce", "GetBlockNonce", func(c unsafe.Pointer, n int32) { api.XGetPrevBlockNonce(c) }),
		simple("getPrevBlockRound", "GetBlockRound", func(c unsafe.Pointer, n int32) { api.XGetPrevBlockRound(c) }),
		simple("getPrevBlockEpoch", "GetBlockEpoch", func(c unsafe.Pointer, n int32) { api.XGetPrevBlockEpoch(c) }),
		simple("getPrevBlockRandomSeed", "GetBlockRandomSeed", func(c unsafe.Pointer, n int32) { api.XGetPrevBlockRandomSeed(c, memOut) }),
		simple("getNumReturnData", "GetNumReturnData", func(c unsafe.Pointer, n int32) { api.XGetNumReturnData(c) }),
		simple("getReturnDataSize", "GetReturnDataSize", func(c unsafe.Pointer, n int32) { api.XGetReturnDataSize(c, n) }),
		simple("getReturnData", "GetReturnData", func(c unsafe.Pointer, n int32) { api.XGetReturnData(c, n, memOut) }),
		simple("getOriginalTxHash", "GetBlockHash", func(c unsafe.Pointer, n int32) { api.XGetOriginalTxHash(c, memOut) }),
		simple("storageLoadLength", "StorageLoad", func(c unsafe.Pointer, n int32) { api.XStorageLoadLength(c, memData, n) }),
		simple("smallIntGetUnsignedArgument", "Int64GetArgument", func(c unsafe.Pointer, n int32) { api.XSmallIntGetUnsignedArgument(c, n) }),
		simple("smallIntGetSignedArgument", "Int64GetArgument", func(c unsafe.Pointer, n int32) { api.XSmallIntGetSignedArgument(c, n) }),
		simple("int64getArgument", "Int64GetArgument", func(c unsafe.Pointer, n int32) { api.XInt64getArgument(c, n) }),
	}
}

// writing is the operations with effects or data.
func writing() []op {
	d := func(o op, extra func(p prices, n uint64) uint64) op { o.extra = extra; return o }
	return []op{
		d(simple("finish", "Finish", func(c unsafe.Pointer, n int32) { api.XReturnData(c, memData, n) }), perPersist),
		d(simple("writeLog", "Log", func(c unsafe.Pointer, n int32) { api.XWriteLog(c, memData, n, memOut, 1) }),
			func(p prices, n uint64) uint64 { return (32 + n) * p.persist }),
		d(simple("writeEventLog", "Log", func(c unsafe.Pointer, n int32) { api.XWriteEventLog(c, 1, memOut, memData, memData, n) }),
			func(p prices, n uint64) uint64 { return (2 + n) * p.copyB }),
		d(simple("transferValue", "TransferValue", func(c unsafe.Pointer, n int32) { api.XTransferValue(c, memAddr, memValue, memData, n) }), perPersist),
		{name: "transferValueExecute", section: vmh.Elrond, entry: "TransferValue", times: 1,
			run: func(c unsafe.Pointer, n int32) {
				api.XTransferValueExecute(c, memAddr, memValue, 0, memData, 0, 1, memOut, memData)
			},
			extra: func(p prices, n uint64) uint64 { return 2 * p.copyB },
			found: func(p prices, n uint64) uint64 { return p.own + 2*p.copyB }},
		d(simple("transferESDT", "TransferValue", func(c unsafe.Pointer, n int32) {
			api.XTransferESDT(c, memAddr, memData, 1, memValue, 0, memData, n)
		}), perPersist),
		{name: "transferESDTExecute", section: vmh.Elrond, entry: "TransferValue",
			run: func(c unsafe.Pointer, n int32) {
				api.XTransferESDTExecute(c, memAddr, memData, 1, memValue, 0, memData, 0, 1, memOut, memData)
			},
			extra: func(p prices, n uint64) uint64 { return 2 * p.copyB },
			found: func(p prices, n uint64) uint64 { return 4 * p.copyB }},
		{name: "transferESDTNFTExecute", section: vmh.Elrond, entry: "TransferValue",
			run: func(c unsafe.Pointer, n int32) {
				api.XTransferESDTNFTExecute(c, memAddr, memData, 1, memValue, 1, 0, memData, 0, 1, memOut, memData)
			},
			extra: func(p prices, n uint64) uint64 { return 2 * p.copyB },
			found: func(p prices, n uint64) uint64 { return 4 * p.copyB }},
		d(simple("storageStore", "StorageStore", func(c unsafe.Pointer, n int32) { api.XStorageStore(c, memData, 3, memData, n) }),
			func(p prices, n uint64) uint64 { return n * p.store }),
		d(simple("storageLoad", "StorageLoad", func(c unsafe.Pointer, n int32) { api.XStorageLoad(c, memData+3, 3, memOut) }),
			func(p prices, n uint64) uint64 { return 3 * p.copyB }),
		d(simple("storageLoadFromAddress", "StorageLoad", func(c unsafe.Pointer, n int32) {
			api.XStorageLoadFromAddress(c, memAddr, memData+3, 3, memOut)
		}), func(p prices, n uint64) uint64 { return 3 * p.copyB }),
		simple("getCurrentESDTNFTNonce", "StorageLoad", func(c unsafe.Pointer, n int32) { api.XGetCurrentESDTNFTNonce(c, memAddr, memData, 0) }),
		d(simple("setStorageLock", "Int64StorageStore", func(c unsafe.Pointer, n int32) { api.XSetStorageLock(c, memData, n, 5) }),
			func(p prices, n uint64) uint64 { return p.store }),
		simple("clearStorageLock", "Int64StorageStore", func(c unsafe.Pointer, n int32) { api.XClearStorageLock(c, memData, n) }),
		simple("getStorageLock", "StorageLoad", func(c unsafe.Pointer, n int32) { api.XGetStorageLock(c, memData, n) }),
		d(simple("isStorageLocked", "StorageLoad", func(c unsafe.Pointer, n int32) { api.XIsStorageLocked(c, memData, n) }),
			func(p prices, n uint64) uint64 { return 1 /* GetBlockTimeStamp */ }),
		simple("smallIntFinishUnsigned", "Int64Finish", func(c unsafe.Pointer, n int32) { api.XSmallIntFinishUnsigned(c, 300) }),
		simple("smallIntFinishSigned", "Int64Finish", func(c unsafe.Pointer, n int32) { api.XSmallIntFinishSigned(c, -300) }),
		simple("int64finish", "Int64Finish", func(c unsafe.Pointer, n int32) { api.XInt64finish(c, 300) }),
		d(simple("smallIntStorageStoreUnsigned", "Int64StorageStore", func(c unsafe.Pointer, n int32) {
			api.XSmallIntStorageStoreUnsigned(c, memData, 3, 300)
		}), func(p prices, n uint64) uint64 { return 2 * p.store }),
		d(simple("smallIntStorageStoreSigned", "Int64StorageStore", func(c unsafe.Pointer, n int32) {
			api.XSmallIntStorageStoreSigned(c, memData, 3, -300)
		}), func(p prices, n uint64) uint64 { return 2 * p.store }),
		d(simple("int64storageStore", "Int64StorageStore", func(c unsafe.Pointer, n int32) { api.XInt64storageStore(c, memData, 3, 300) }),
			func(p prices, n uint64) uint64 { return 2 * p.store }),
		d(simple("smallIntStorageLoadUnsigned", "Int64StorageLoad", func(c unsafe.Pointer, n int32) {
			api.XSmallIntStorageLoadUnsigned(c, memData+3, 3)
		}), func(p prices, n uint64) uint64 { return 3 * p.copyB }),
		d(simple("smallIntStorageLoadSigned", "Int64StorageLoad", func(c unsafe.Pointer, n int32) {
			api.XSmallIntStorageLoadSigned(c, memData+3, 3)
		}), func(p prices, n uint64) uint64 { return 3 * p.copyB }),
		d(simple("int64storageLoad", "Int64StorageLoad", func(c unsafe.Pointer, n int32) { api.XInt64storageLoad(c, memData+3, 3) }),
			func(p prices, n uint64) uint64 { return 3 * p.copyB }),
	}
}

// bigints is the big-integer operations on small operands.
func bigints() []op {
	d := func(o op, extra func(p prices, n uint64) uint64) op { o.extra = extra; return o }
	s := "BigIntSub"
	return []op{
		bigop("bigIntNew", "BigIntNew", "", func(c unsafe.Pointer, n int32) { api.XBigIntNew(c, int64(n)) }),
		bigop("bigIntUnsignedByteLength", "BigIntUnsignedByteLength", "", func(c unsafe.Pointer, n int32) { api.XBigIntUnsignedByteLength(c, 1) }),
		bigop("bigIntSignedByteLength", "BigIntSignedByteLength", "", func(c unsafe.Pointer, n int32) { api.XBigIntSignedByteLength(c, 1) }),
		d(bigop("bigIntGetUnsignedBytes", "BigIntGetUnsignedBytes", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetUnsignedBytes(c, 1, memOut) }),
			func(p prices, n uint64) uint64 { return 2 * p.copyB }),
		d(bigop("bigIntGetSignedBytes", "BigIntGetSignedBytes", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetSignedBytes(c, 1, memOut) }),
			func(p prices, n uint64) uint64 { return 2 * p.copyB }),
		d(bigop("bigIntSetUnsignedBytes", "BigIntSetUnsignedBytes", "", func(c unsafe.Pointer, n int32) { api.XBigIntSetUnsignedBytes(c, 1, memData, n) }), perCopy),
		d(bigop("bigIntSetSignedBytes", "BigIntSetSignedBytes", "", func(c unsafe.Pointer, n int32) { api.XBigIntSetSignedBytes(c, 1, memData, n) }), perCopy),
		bigop("bigIntIsInt64", "BigIntIsInt64", "", func(c unsafe.Pointer, n int32) { api.XBigIntIsInt64(c, 1) }),
		bigop("bigIntGetInt64", "BigIntGetInt64", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetInt64(c, 1) }),
		bigop("bigIntSetInt64", "BigIntSetInt64", s, func(c unsafe.Pointer, n int32) { api.XBigIntSetInt64(c, 1, 7) }),
		bigop("bigIntAdd", "BigIntAdd", s, func(c unsafe.Pointer, n int32) { api.XBigIntAdd(c, 3, 1, 2) }),
		bigop("bigIntSub", "BigIntSub", "", func(c unsafe.Pointer, n int32) { api.XBigIntSub(c, 3, 1, 2) }),
		bigop("bigIntMul", "BigIntMul", "", func(c unsafe.Pointer, n int32) { api.XBigIntMul(c, 3, 1, 2) }),
		bigop("bigIntTDiv", "BigIntTDiv", "", func(c unsafe.Pointer, n int32) { api.XBigIntTDiv(c, 3, 1, 2) }),
		bigop("bigIntTMod", "BigIntTMod", s, func(c unsafe.Pointer, n int32) { api.XBigIntTMod(c, 3, 1, 2) }),
		bigop("bigIntEDiv", "BigIntEDiv", s, func(c unsafe.Pointer, n int32) { api.XBigIntEDiv(c, 3, 1, 2) }),
		bigop("bigIntEMod", "BigIntEMod", s, func(c unsafe.Pointer, n int32) { api.XBigIntEMod(c, 3, 1, 2) }),
		bigop("bigIntAbs", "BigIntAbs", s, func(c unsafe.Pointer, n int32) { api.XBigIntAbs(c, 3, 1) }),
		bigop("bigIntNeg", "BigIntNeg", s, func(c unsafe.Pointer, n int32) { api.XBigIntNeg(c, 3, 1) }),
		bigop("bigIntSign", "BigIntSign", "", func(c unsafe.Pointer, n int32) { api.XBigIntSign(c, 1) }),
		bigop("bigIntCmp", "BigIntCmp", "", func(c unsafe.Pointer, n int32) { api.XBigIntCmp(c, 1, 2) }),
		bigop("bigIntNot", "BigIntNot", s, func(c unsafe.Pointer, n int32) { api.XBigIntNot(c, 3, 1) }),
		bigop("bigIntAnd", "BigIntAnd", s, func(c unsafe.Pointer, n int32) { api.XBigIntAnd(c, 3, 1, 2) }),
		bigop("bigIntOr", "BigIntOr", s, func(c unsafe.Pointer, n int32) { api.XBigIntOr(c, 3, 1, 2) }),
		bigop("bigIntXor", "BigIntXor", s, func(c unsafe.Pointer, n int32) { api.XBigIntXor(c, 3, 1, 2) }),
		bigop("bigIntShr", "BigIntShr", s, func(c unsafe.Pointer, n int32) { api.XBigIntShr(c, 3, 1, 2) }),
		bigop("bigIntShl", "BigIntShl", s, func(c unsafe.Pointer, n int32) { api.XBigIntShl(c, 3, 1, 2) }),
		d(bigop("bigIntFinishUnsigned", "BigIntFinishUnsigned", "", func(c unsafe.Pointer, n int32) { api.XBigIntFinishUnsigned(c, 1) }),
			func(p prices, n uint64) uint64 { return 2 * p.persist }),
		d(bigop("bigIntFinishSigned", "BigIntFinishSigned", "", func(c unsafe.Pointer, n int32) { api.XBigIntFinishSigned(c, 1) }),
			func(p prices, n uint64) uint64 { return 2 * p.persist }),
		d(bigop("bigIntStorageLoadUnsigned", "BigIntStorageLoadUnsigned", "", func(c unsafe.Pointer, n int32) {
			api.XBigIntStorageLoadUnsigned(c, memData+3, 3, 4)
		}), func(p prices, n uint64) uint64 { return 3 * p.copyB }),
		d(bigop("bigIntStorageStoreUnsigned", "BigIntStorageStoreUnsigned", "", func(c unsafe.Pointer, n int32) {
			api.XBigIntStorageStoreUnsigned(c, memData, 3, 1)
		}), func(p prices, n uint64) uint64 { return 2 * p.store }),
		bigop("bigIntGetUnsignedArgument", "BigIntGetUnsignedArgument", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetUnsignedArgument(c, n, 4) }),
		bigop("bigIntGetSignedArgument", "BigIntGetSignedArgument", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetSignedArgument(c, n, 4) }),
		bigop("bigIntGetCallValue", "BigIntGetCallValue", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetCallValue(c, 4) }),
		bigop("bigIntGetESDTCallValue", "BigIntGetCallValue", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetESDTCallValue(c, 4) }),
		bigop("bigIntGetExternalBalance", "BigIntGetExternalBalance", "", func(c unsafe.Pointer, n int32) { api.XBigIntGetExternalBalance(c, memAddr, 4) }),
		d(bigop("bigIntGetESDTExternalBalance", "BigIntGetExternalBalance", "", func(c unsafe.Pointer, n int32) {
			api.XBigIntGetESDTExternalBalance(c, memAddr, memData, n, 0, 4)
		}), func(p prices, n uint64) uint64 { return 1 /* GetExternalBalance */ }),
	}
}

// hashing is the cryptographic operations.
func hashing() []op {
	x := func(name, entry string, run func(c unsafe.Pointer, n int32)) op {
		return op{name: name, section: vmh.Crypt, entry: entry, run: run, extra: perCopy}
	}
	return []op{
		x("sha256", "SHA256", func(c unsafe.Pointer, n int32) { cryptoapi.XSha256(c, memData, n, memOut) }),
		x("keccak256", "Keccak256", func(c unsafe.Pointer, n int32) { cryptoapi.XKeccak256(c, memData, n, memOut) }),
		x("ripemd160", "Ripemd160", func(c unsafe.Pointer, n int32) { cryptoapi.XRipemd160(c, memData, n, memOut) }),
		x("verifyBLS", "VerifyBLS", func(c unsafe.Pointer, n int32) { cryptoapi.XVerifyBLS(c, memData, memData, n, memData) }),
		x("verifyEd25519", "VerifyEd25519", func(c unsafe.Pointer, n int32) { cryptoapi.XVerifyEd25519(c, memData, memData, n, memData) }),
		x("verifySecp256k1", "VerifySecp256k1", func(c unsafe.Pointer, n int32) { cryptoapi.XVerifySecp256k1(c, memData, 33, memData, n, memData) }),
	}
}

// charge runs one of the operations and compares its charge with the schedule.
func charge(ops []op) {
	o := ops[nd.Choice("op", len(ops))]
	s := vmh.NewSched()
	p := prices{own: s.Sym(o.section, o.entry), copyB: s.Sym(vmh.Base, "DataCopyPerByte"), persist: s.Sym(vmh.Base, "PersistPerByte"),
		store: s.Sym(vmh.Base, "StorePerByte"), release: s.Sym(vmh.Base, "ReleasePerByte")}
	if o.alt != "" {
		p.alt = s.Sym(o.section, o.alt)
	}
	n := nd.Choice("n", 2+nd.Tier())
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	vmh.UseCrypto(e.H, &vmh.Crypto{Result: []byte{1, 2}})
	e.W.Token = func([]byte, []byte, uint64) (*esdt.ESDigitalToken, error) {
		return &esdt.ESDigitalToken{Value: big.NewInt(3), Properties: []byte{1}, TokenMetaData: &esdt.MetaData{Name: []byte("n"), Hash: []byte("h"), URIs: [][]byte{[]byte("u")}}}, nil
	}
	e.W.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		return &vmcommon.VMOutput{GasRemaining: in.GasProvided, GasRefund: big.NewInt(0)}, nil
	}
	e.AccA.Put([]byte("key"), []byte{1, 2, 3})
	ran := false
	var used uint64
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Put(memAddr, vmh.Alice)
		in.Put(memValue, vmh.Zero32())
		in.Put(memData, []byte("newkey"))
		in.Put(memOut, []byte{2, 0, 0, 0})
		b := e.H.BigInt()
		b.GetOne(1).SetInt64(0x1234)
		b.GetOne(2).SetInt64(0x77)
		before := in.Points
		in.Do(func() { o.run(in.Ctx(), int32(n)) })
		used = in.Points - before
		ran = in.BP == 0
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50, []byte{1}, []byte{2, 3}, []byte{4}))
	vmh.NoCrash(out, err)
	nd.Assert(ran, "a valid operation with enough gas is carried out: "+o.name)
	if !ran {
		return
	}
	nd.Observe("used", used)
	nd.Reach("charged")
	want := p.own
	found := p.own
	if o.alt != "" {
		found = p.alt
	}
	if o.extra != nil {
		want += o.extra(p, uint64(n))
		found += o.extra(p, uint64(n))
	}
	if o.found != nil {
		found = p.own + o.found(p, uint64(n))
	}
	if o.alt == "" && o.found == nil {
		nd.Assert(used == want, "an operation charges exactly what the schedule assigns to it: "+o.name)
		return
	}
	nd.Assert(used == want || used == found, "an operation charges nothing but its price: "+o.name)
	nd.Assert(used == want, "an operation charges its own price once: "+o.name)
}

// G02_ChargeReading is every operation that reads the environment.
func G02_ChargeReading() { charge(reading()) }

// G02_ChargeWriting is every operation with effects.
func G02_ChargeWriting() { charge(writing()) }

// G02_ChargeBigInt is every big-integer operation.
func G02_ChargeBigInt() { charge(bigints()) }

// G02_ChargeCrypto is every cryptographic operation.
func G02_ChargeCrypto() { charge(hashing()) }
