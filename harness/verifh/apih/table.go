package apih

import (
	"unsafe"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/cryptoapi"
	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
)

// entry is one operation of the contract API: the kinds of its parameters (o a
// memory offset, l a length, n a count, i an index, h a handle, b a bit count, g a 64-bit
// number) and values for them that are in order.
type entry struct {
	name  string
	kinds string
	good  []int64
	run   func(c unsafe.Pointer, p []int64)
}

// table is every operation of the contract API.
var table = []entry{
	{"getGasLeft", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetGasLeft(c) }},
	{"getSCAddress", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetSCAddress(c, int32(p[0])) }},
	{"getOwnerAddress", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetOwnerAddress(c, int32(p[0])) }},
	{"getShardOfAddress", "o", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XGetShardOfAddress(c, int32(p[0])) }},
	{"isSmartContract", "o", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XIsSmartContract(c, int32(p[0])) }},
	{"signalError", "ol", []int64{90, 2}, func(c unsafe.Pointer, p []int64) { api.XSignalError(c, int32(p[0]), int32(p[1])) }},
	{"getExternalBalance", "oo", []int64{0, 90}, func(c unsafe.Pointer, p []int64) { api.XGetExternalBalance(c, int32(p[0]), int32(p[1])) }},
	{"blockHash", "go", []int64{1, 90}, func(c unsafe.Pointer, p []int64) { api.XBlockHash(c, p[0], int32(p[1])) }},
	{"getESDTBalance", "oolgo", []int64{0, 64, 3, 1, 90}, func(c unsafe.Pointer, p []int64) {
		api.XGetESDTBalance(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3], int32(p[4]))
	}},
	{"getESDTNFTNameLength", "oolg", []int64{0, 64, 3, 1}, func(c unsafe.Pointer, p []int64) {
		api.XGetESDTNFTNameLength(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3])
	}},
	{"getESDTNFTAttributeLength", "oolg", []int64{0, 64, 3, 1}, func(c unsafe.Pointer, p []int64) {
		api.XGetESDTNFTAttributeLength(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3])
	}},
	{"getESDTNFTURILength", "oolg", []int64{0, 64, 3, 1}, func(c unsafe.Pointer, p []int64) {
		api.XGetESDTNFTURILength(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3])
	}},
	{"getESDTTokenData", "oolghoooooho", []int64{0, 64, 3, 1, 1, 90, 90, 90, 90, 90, 1, 90}, func(c unsafe.Pointer, p []int64) {
		api.XGetESDTTokenData(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3], int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]), int32(p[8]), int32(p[9]), int32(p[10]), int32(p[11]))
	}},
	{"transferValue", "oool", []int64{0, 32, 70, 2}, func(c unsafe.Pointer, p []int64) {
		api.XTransferValue(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"transferValueExecute", "oogolnoo", []int64{0, 32, 1000, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XTransferValueExecute(c, int32(p[0]), int32(p[1]), p[2], int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"transferESDT", "oologol", []int64{0, 64, 3, 32, 1000, 70, 2}, func(c unsafe.Pointer, p []int64) {
		api.XTransferESDT(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), p[4], int32(p[5]), int32(p[6]))
	}},
	{"transferESDTExecute", "oologolnoo", []int64{0, 64, 3, 32, 1000, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XTransferESDTExecute(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), p[4], int32(p[5]), int32(p[6]), int32(p[7]), int32(p[8]), int32(p[9]))
	}},
	{"transferESDTNFTExecute", "oologgolnoo", []int64{0, 64, 3, 32, 1, 1000, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XTransferESDTNFTExecute(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), p[4], p[5], int32(p[6]), int32(p[7]), int32(p[8]), int32(p[9]), int32(p[10]))
	}},
	{"createAsyncCall", "olooolololg", []int64{90, 2, 0, 32, 70, 2, 90, 2, 90, 2, 5}, func(c unsafe.Pointer, p []int64) {
		api.XCreateAsyncCall(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]), int32(p[8]), int32(p[9]), p[10])
	}},
	{"setAsyncContextCallback", "olol", []int64{90, 2, 90, 2}, func(c unsafe.Pointer, p []int64) {
		api.XSetAsyncContextCallback(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"upgradeContract", "ogooolnoo", []int64{0, 1000, 32, 80, 84, 4, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XUpgradeContract(c, int32(p[0]), p[1], int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]), int32(p[8]))
	}},
	{"upgradeFromSourceContract", "ogooonoo", []int64{0, 1000, 32, 0, 84, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XUpgradeFromSourceContract(c, int32(p[0]), p[1], int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"asyncCall", "oool", []int64{0, 32, 70, 1}, func(c unsafe.Pointer, p []int64) {
		api.XAsyncCall(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"getArgumentLength", "i", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XGetArgumentLength(c, int32(p[0])) }},
	{"getArgument", "io", []int64{0, 90}, func(c unsafe.Pointer, p []int64) { api.XGetArgument(c, int32(p[0]), int32(p[1])) }},
	{"getFunction", "o", []int64{70}, func(c unsafe.Pointer, p []int64) { api.XGetFunction(c, int32(p[0])) }},
	{"getNumArguments", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetNumArguments(c) }},
	{"storageStore", "olol", []int64{64, 3, 76, 2}, func(c unsafe.Pointer, p []int64) {
		api.XStorageStore(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"storageLoadLength", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XStorageLoadLength(c, int32(p[0]), int32(p[1])) }},
	{"storageLoadFromAddress", "oolo", []int64{0, 64, 3, 76}, func(c unsafe.Pointer, p []int64) {
		api.XStorageLoadFromAddress(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"storageLoad", "olo", []int64{64, 3, 76}, func(c unsafe.Pointer, p []int64) { api.XStorageLoad(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"setStorageLock", "olg", []int64{64, 3, 5}, func(c unsafe.Pointer, p []int64) { api.XSetStorageLock(c, int32(p[0]), int32(p[1]), p[2]) }},
	{"getStorageLock", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XGetStorageLock(c, int32(p[0]), int32(p[1])) }},
	{"isStorageLocked", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XIsStorageLocked(c, int32(p[0]), int32(p[1])) }},
	{"clearStorageLock", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XClearStorageLock(c, int32(p[0]), int32(p[1])) }},
	{"getCaller", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetCaller(c, int32(p[0])) }},
	{"checkNoPayment", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XCheckNoPayment(c) }},
	{"callValue", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XCallValue(c, int32(p[0])) }},
	{"getESDTValue", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetESDTValue(c, int32(p[0])) }},
	{"getESDTTokenName", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetESDTTokenName(c, int32(p[0])) }},
	{"getESDTTokenNonce", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetESDTTokenNonce(c) }},
	{"getCurrentESDTNFTNonce", "ool", []int64{0, 64, 3}, func(c unsafe.Pointer, p []int64) {
		api.XGetCurrentESDTNFTNonce(c, int32(p[0]), int32(p[1]), int32(p[2]))
	}},
	{"getESDTTokenType", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetESDTTokenType(c) }},
	{"getCallValueTokenName", "oo", []int64{90, 90}, func(c unsafe.Pointer, p []int64) { api.XGetCallValueTokenName(c, int32(p[0]), int32(p[1])) }},
	{"writeLog", "olon", []int64{76, 2, 76, 1}, func(c unsafe.Pointer, p []int64) {
		api.XWriteLog(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"writeEventLog", "noool", []int64{1, 72, 76, 76, 2}, func(c unsafe.Pointer, p []int64) {
		api.XWriteEventLog(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]))
	}},
	{"getBlockTimestamp", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetBlockTimestamp(c) }},
	{"getBlockNonce", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetBlockNonce(c) }},
	{"getBlockRound", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetBlockRound(c) }},
	{"getBlockEpoch", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetBlockEpoch(c) }},
	{"getBlockRandomSeed", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetBlockRandomSeed(c, int32(p[0])) }},
	{"getStateRootHash", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetStateRootHash(c, int32(p[0])) }},
	{"getPrevBlockTimestamp", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetPrevBlockTimestamp(c) }},
	{"getPrevBlockNonce", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetPrevBlockNonce(c) }},
	{"getPrevBlockRound", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetPrevBlockRound(c) }},
	{"getPrevBlockEpoch", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetPrevBlockEpoch(c) }},
	{"getPrevBlockRandomSeed", "o", []int64{90}, func(c unsafe.Pointer, p []int64) { api.XGetPrevBlockRandomSeed(c, int32(p[0])) }},
	{"returnData", "ol", []int64{90, 2}, func(c unsafe.Pointer, p []int64) { api.XReturnData(c, int32(p[0]), int32(p[1])) }},
	{"executeOnSameContext", "gooolnoo", []int64{1000, 0, 32, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XExecuteOnSameContext(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"executeOnDestContext", "gooolnoo", []int64{1000, 0, 32, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XExecuteOnDestContext(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"executeOnDestContextByCaller", "gooolnoo", []int64{1000, 0, 32, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XExecuteOnDestContextByCaller(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"delegateExecution", "goolnoo", []int64{1000, 0, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XDelegateExecution(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]))
	}},
	{"executeReadOnly", "goolnoo", []int64{1000, 0, 70, 1, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XExecuteReadOnly(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]))
	}},
	{"createContract", "gooolonoo", []int64{1000, 32, 80, 84, 4, 90, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XCreateContract(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]), int32(p[8]))
	}},
	{"deployFromSourceContract", "goooonoo", []int64{1000, 32, 0, 84, 90, 1, 72, 76}, func(c unsafe.Pointer, p []int64) {
		api.XDeployFromSourceContract(c, p[0], int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]), int32(p[5]), int32(p[6]), int32(p[7]))
	}},
	{"getNumReturnData", "", []int64{}, func(c unsafe.Pointer, p []int64) { api.XGetNumReturnData(c) }},
	{"getReturnDataSize", "i", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XGetReturnDataSize(c, int32(p[0])) }},
	{"getReturnData", "io", []int64{0, 76}, func(c unsafe.Pointer, p []int64) { api.XGetReturnData(c, int32(p[0]), int32(p[1])) }},
	{"getOriginalTxHash", "o", []int64{76}, func(c unsafe.Pointer, p []int64) { api.XGetOriginalTxHash(c, int32(p[0])) }},
	{"bigIntGetUnsignedArgument", "ih", []int64{0, 3}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetUnsignedArgument(c, int32(p[0]), int32(p[1])) }},
	{"bigIntGetSignedArgument", "ih", []int64{0, 3}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetSignedArgument(c, int32(p[0]), int32(p[1])) }},
	{"bigIntStorageStoreUnsigned", "olh", []int64{64, 3, 1}, func(c unsafe.Pointer, p []int64) {
		api.XBigIntStorageStoreUnsigned(c, int32(p[0]), int32(p[1]), int32(p[2]))
	}},
	{"bigIntStorageLoadUnsigned", "olh", []int64{64, 3, 3}, func(c unsafe.Pointer, p []int64) {
		api.XBigIntStorageLoadUnsigned(c, int32(p[0]), int32(p[1]), int32(p[2]))
	}},
	{"bigIntGetCallValue", "h", []int64{3}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetCallValue(c, int32(p[0])) }},
	{"bigIntGetESDTCallValue", "h", []int64{3}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetESDTCallValue(c, int32(p[0])) }},
	{"bigIntGetExternalBalance", "oh", []int64{0, 1}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetExternalBalance(c, int32(p[0]), int32(p[1])) }},
	{"bigIntGetESDTExternalBalance", "oolgh", []int64{0, 64, 3, 1, 1}, func(c unsafe.Pointer, p []int64) {
		api.XBigIntGetESDTExternalBalance(c, int32(p[0]), int32(p[1]), int32(p[2]), p[3], int32(p[4]))
	}},
	{"bigIntNew", "g", []int64{5}, func(c unsafe.Pointer, p []int64) { api.XBigIntNew(c, p[0]) }},
	{"bigIntUnsignedByteLength", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntUnsignedByteLength(c, int32(p[0])) }},
	{"bigIntSignedByteLength", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntSignedByteLength(c, int32(p[0])) }},
	{"bigIntGetUnsignedBytes", "ho", []int64{1, 90}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetUnsignedBytes(c, int32(p[0]), int32(p[1])) }},
	{"bigIntGetSignedBytes", "ho", []int64{1, 90}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetSignedBytes(c, int32(p[0]), int32(p[1])) }},
	{"bigIntSetUnsignedBytes", "hol", []int64{3, 90, 2}, func(c unsafe.Pointer, p []int64) {
		api.XBigIntSetUnsignedBytes(c, int32(p[0]), int32(p[1]), int32(p[2]))
	}},
	{"bigIntSetSignedBytes", "hol", []int64{3, 90, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntSetSignedBytes(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntIsInt64", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntIsInt64(c, int32(p[0])) }},
	{"bigIntGetInt64", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntGetInt64(c, int32(p[0])) }},
	{"bigIntSetInt64", "hg", []int64{3, 5}, func(c unsafe.Pointer, p []int64) { api.XBigIntSetInt64(c, int32(p[0]), p[1]) }},
	{"bigIntAdd", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntAdd(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntSub", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntSub(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntMul", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntMul(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntTDiv", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntTDiv(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntTMod", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntTMod(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntEDiv", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntEDiv(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntEMod", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntEMod(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntAbs", "hh", []int64{3, 1}, func(c unsafe.Pointer, p []int64) { api.XBigIntAbs(c, int32(p[0]), int32(p[1])) }},
	{"bigIntNeg", "hh", []int64{3, 1}, func(c unsafe.Pointer, p []int64) { api.XBigIntNeg(c, int32(p[0]), int32(p[1])) }},
	{"bigIntSign", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntSign(c, int32(p[0])) }},
	{"bigIntCmp", "hh", []int64{1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntCmp(c, int32(p[0]), int32(p[1])) }},
	{"bigIntNot", "hh", []int64{3, 1}, func(c unsafe.Pointer, p []int64) { api.XBigIntNot(c, int32(p[0]), int32(p[1])) }},
	{"bigIntAnd", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntAnd(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntOr", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntOr(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntXor", "hhh", []int64{3, 1, 2}, func(c unsafe.Pointer, p []int64) { api.XBigIntXor(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntShr", "hhb", []int64{3, 1, 3}, func(c unsafe.Pointer, p []int64) { api.XBigIntShr(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntShl", "hhb", []int64{3, 1, 3}, func(c unsafe.Pointer, p []int64) { api.XBigIntShl(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"bigIntFinishUnsigned", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntFinishUnsigned(c, int32(p[0])) }},
	{"bigIntFinishSigned", "h", []int64{1}, func(c unsafe.Pointer, p []int64) { api.XBigIntFinishSigned(c, int32(p[0])) }},
	{"smallIntGetUnsignedArgument", "i", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XSmallIntGetUnsignedArgument(c, int32(p[0])) }},
	{"smallIntGetSignedArgument", "i", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XSmallIntGetSignedArgument(c, int32(p[0])) }},
	{"smallIntFinishUnsigned", "g", []int64{5}, func(c unsafe.Pointer, p []int64) { api.XSmallIntFinishUnsigned(c, p[0]) }},
	{"smallIntFinishSigned", "g", []int64{5}, func(c unsafe.Pointer, p []int64) { api.XSmallIntFinishSigned(c, p[0]) }},
	{"smallIntStorageStoreUnsigned", "olg", []int64{64, 3, 5}, func(c unsafe.Pointer, p []int64) {
		api.XSmallIntStorageStoreUnsigned(c, int32(p[0]), int32(p[1]), p[2])
	}},
	{"smallIntStorageStoreSigned", "olg", []int64{64, 3, 5}, func(c unsafe.Pointer, p []int64) { api.XSmallIntStorageStoreSigned(c, int32(p[0]), int32(p[1]), p[2]) }},
	{"smallIntStorageLoadUnsigned", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XSmallIntStorageLoadUnsigned(c, int32(p[0]), int32(p[1])) }},
	{"smallIntStorageLoadSigned", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XSmallIntStorageLoadSigned(c, int32(p[0]), int32(p[1])) }},
	{"int64getArgument", "i", []int64{0}, func(c unsafe.Pointer, p []int64) { api.XInt64getArgument(c, int32(p[0])) }},
	{"int64finish", "g", []int64{5}, func(c unsafe.Pointer, p []int64) { api.XInt64finish(c, p[0]) }},
	{"int64storageStore", "olg", []int64{64, 3, 5}, func(c unsafe.Pointer, p []int64) { api.XInt64storageStore(c, int32(p[0]), int32(p[1]), p[2]) }},
	{"int64storageLoad", "ol", []int64{64, 3}, func(c unsafe.Pointer, p []int64) { api.XInt64storageLoad(c, int32(p[0]), int32(p[1])) }},
	{"sha256", "olo", []int64{76, 2, 90}, func(c unsafe.Pointer, p []int64) { cryptoapi.XSha256(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"keccak256", "olo", []int64{76, 2, 90}, func(c unsafe.Pointer, p []int64) { cryptoapi.XKeccak256(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"ripemd160", "olo", []int64{76, 2, 90}, func(c unsafe.Pointer, p []int64) { cryptoapi.XRipemd160(c, int32(p[0]), int32(p[1]), int32(p[2])) }},
	{"verifyBLS", "oolo", []int64{0, 90, 2, 90}, func(c unsafe.Pointer, p []int64) {
		cryptoapi.XVerifyBLS(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"verifyEd25519", "oolo", []int64{0, 90, 2, 90}, func(c unsafe.Pointer, p []int64) {
		cryptoapi.XVerifyEd25519(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]))
	}},
	{"verifySecp256k1", "ololo", []int64{0, 33, 90, 2, 90}, func(c unsafe.Pointer, p []int64) {
		cryptoapi.XVerifySecp256k1(c, int32(p[0]), int32(p[1]), int32(p[2]), int32(p[3]), int32(p[4]))
	}},
}
