package deployh

// apiNames are the names of the operations offered to contracts.
var apiNames = []string{
	"asyncCall",
	"bigIntAbs",
	"bigIntAdd",
	"bigIntAnd",
	"bigIntCmp",
	"bigIntEDiv",
	"bigIntEMod",
	"bigIntFinishSigned",
	"bigIntFinishUnsigned",
	"bigIntGetCallValue",
	"bigIntGetESDTCallValue",
	"bigIntGetESDTExternalBalance",
	"bigIntGetExternalBalance",
	"bigIntGetInt64",
	"bigIntGetSignedArgument",
	"bigIntGetSignedBytes",
	"bigIntGetUnsignedArgument",
	"bigIntGetUnsignedBytes",
	"bigIntIsInt64",
	"bigIntMul",
	"bigIntNeg",
	"bigIntNew",
	"bigIntNot",
	"bigIntOr",
	"bigIntSetInt64",
	"bigIntSetSignedBytes",
	"bigIntSetUnsignedBytes",
	"bigIntShl",
	"bigIntShr",
	"bigIntSign",
	"bigIntSignedByteLength",
	"bigIntStorageLoadUnsigned",
	"bigIntStorageStoreUnsigned",
	"bigIntSub",
	"bigIntTDiv",
	"bigIntTMod",
	"bigIntUnsignedByteLength",
	"bigIntXor",
	"checkNoPayment",
	"clearStorageLock",
	"createContract",
	"delegateExecution",
	"deployFromSourceContract",
	"executeOnDestContext",
	"executeOnDestContextByCaller",
	"executeOnSameContext",
	"executeReadOnly",
	"finish",
	"getArgument",
	"getArgumentLength",
	"getBlockEpoch",
	"getBlockHash",
	"getBlockNonce",
	"getBlockRandomSeed",
	"getBlockRound",
	"getBlockTimestamp",
	"getCallValue",
	"getCallValueTokenName",
	"getCaller",
	"getCurrentESDTNFTNonce",
	"getESDTBalance",
	"getESDTNFTAttributeLength",
	"getESDTNFTNameLength",
	"getESDTNFTURILength",
	"getESDTTokenData",
	"getESDTTokenName",
	"getESDTTokenNonce",
	"getESDTTokenType",
	"getESDTValue",
	"getExternalBalance",
	"getFunction",
	"getGasLeft",
	"getNumArguments",
	"getNumReturnData",
	"getOriginalTxHash",
	"getOwnerAddress",
	"getPrevBlockEpoch",
	"getPrevBlockNonce",
	"getPrevBlockRandomSeed",
	"getPrevBlockRound",
	"getPrevBlockTimestamp",
	"getReturnData",
	"getReturnDataSize",
	"getSCAddress",
	"getShardOfAddress",
	"getStateRootHash",
	"getStorageLock",
	"int64finish",
	"int64getArgument",
	"int64storageLoad",
	"int64storageStore",
	"isSmartContract",
	"isStorageLocked",
	"keccak256",
	"ripemd160",
	"setStorageLock",
	"sha256",
	"signalError",
	"smallIntFinishSigned",
	"smallIntFinishUnsigned",
	"smallIntGetSignedArgument",
	"smallIntGetUnsignedArgument",
	"smallIntStorageLoadSigned",
	"smallIntStorageLoadUnsigned",
	"smallIntStorageStoreSigned",
	"smallIntStorageStoreUnsigned",
	"storageLoad",
	"storageLoadFromAddress",
	"storageLoadLength",
	"storageStore",
	"transferESDT",
	"transferESDTExecute",
	"transferESDTNFTExecute",
	"transferValue",
	"transferValueExecute",
	"upgradeContract",
	"upgradeFromSourceContract",
	"verifyBLS",
	"verifyEd25519",
	"verifySecp256k1",
	"writeEventLog",
	"writeLog",
}
