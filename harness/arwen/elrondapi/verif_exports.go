package elrondapi

// Exports of the API entry points for the harnesses (overlay only).

import "unsafe"

func XGetGasLeft(context unsafe.Pointer) int64 { return v1_3_getGasLeft(context) }
func XGetSCAddress(context unsafe.Pointer, resultOffset int32) {
	v1_3_getSCAddress(context, resultOffset)
}
func XGetOwnerAddress(context unsafe.Pointer, resultOffset int32) {
	v1_3_getOwnerAddress(context, resultOffset)
}
func XGetShardOfAddress(context unsafe.Pointer, addressOffset int32) int32 {
	return v1_3_getShardOfAddress(context, addressOffset)
}
func XIsSmartContract(context unsafe.Pointer, addressOffset int32) int32 {
	return v1_3_isSmartContract(context, addressOffset)
}
func XSignalError(context unsafe.Pointer, messageOffset int32, messageLength int32) {
	v1_3_signalError(context, messageOffset, messageLength)
}
func XGetExternalBalance(context unsafe.Pointer, addressOffset int32, resultOffset int32) {
	v1_3_getExternalBalance(context, addressOffset, resultOffset)
}
func XBlockHash(context unsafe.Pointer, nonce int64, resultOffset int32) int32 {
	return v1_3_blockHash(context, nonce, resultOffset)
}
func XGetESDTBalance(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64, resultOffset int32) int32 {
	return v1_3_getESDTBalance(context, addressOffset, tokenIDOffset, tokenIDLen, nonce, resultOffset)
}
func XGetESDTNFTNameLength(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64) int32 {
	return v1_3_getESDTNFTNameLength(context, addressOffset, tokenIDOffset, tokenIDLen, nonce)
}
func XGetESDTNFTAttributeLength(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64) int32 {
	return v1_3_getESDTNFTAttributeLength(context, addressOffset, tokenIDOffset, tokenIDLen, nonce)
}
func XGetESDTNFTURILength(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64) int32 {
	return v1_3_getESDTNFTURILength(context, addressOffset, tokenIDOffset, tokenIDLen, nonce)
}
func XGetESDTTokenData(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64, valueHandle int32, propertiesOffset int32, hashOffset int32, nameOffset int32, attributesOffset int32, creatorOffset int32, royaltiesHandle int32, urisOffset int32) int32 {
	return v1_3_getESDTTokenData(context, addressOffset, tokenIDOffset, tokenIDLen, nonce, valueHandle, propertiesOffset, hashOffset, nameOffset, attributesOffset, creatorOffset, royaltiesHandle, urisOffset)
}
func XTransferValue(context unsafe.Pointer, destOffset int32, valueOffset int32, dataOffset int32, length int32) int32 {
	return v1_3_transferValue(context, destOffset, valueOffset, dataOffset, length)
}
func XTransferValueExecute(context unsafe.Pointer, destOffset int32, valueOffset int32, gasLimit int64, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_transferValueExecute(context, destOffset, valueOffset, gasLimit, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XTransferESDT(context unsafe.Pointer, destOffset int32, tokenIDOffset int32, tokenIDLen int32, valueOffset int32, gasLimit int64, dataOffset int32, length int32) int32 {
	return v1_3_transferESDT(context, destOffset, tokenIDOffset, tokenIDLen, valueOffset, gasLimit, dataOffset, length)
}
func XTransferESDTExecute(context unsafe.Pointer, destOffset int32, tokenIDOffset int32, tokenIDLen int32, valueOffset int32, gasLimit int64, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_transferESDTExecute(context, destOffset, tokenIDOffset, tokenIDLen, valueOffset, gasLimit, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XTransferESDTNFTExecute(context unsafe.Pointer, destOffset int32, tokenIDOffset int32, tokenIDLen int32, valueOffset int32, nonce int64, gasLimit int64, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_transferESDTNFTExecute(context, destOffset, tokenIDOffset, tokenIDLen, valueOffset, nonce, gasLimit, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XCreateAsyncCall(context unsafe.Pointer, asyncContextIdentifier int32, identifierLength int32, destOffset int32, valueOffset int32, dataOffset int32, length int32, successOffset int32, successLength int32, errorOffset int32, errorLength int32, gas int64) {
	v1_3_createAsyncCall(context, asyncContextIdentifier, identifierLength, destOffset, valueOffset, dataOffset, length, successOffset, successLength, errorOffset, errorLength, gas)
}
func XSetAsyncContextCallback(context unsafe.Pointer, asyncContextIdentifier int32, identifierLength int32, callback int32, callbackLength int32) int32 {
	return v1_3_setAsyncContextCallback(context, asyncContextIdentifier, identifierLength, callback, callbackLength)
}
func XUpgradeContract(context unsafe.Pointer, destOffset int32, gasLimit int64, valueOffset int32, codeOffset int32, codeMetadataOffset int32, length int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) {
	v1_3_upgradeContract(context, destOffset, gasLimit, valueOffset, codeOffset, codeMetadataOffset, length, numArguments, argumentsLengthOffset, dataOffset)
}
func XUpgradeFromSourceContract(context unsafe.Pointer, destOffset int32, gasLimit int64, valueOffset int32, sourceContractAddressOffset int32, codeMetadataOffset int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) {
	v1_3_upgradeFromSourceContract(context, destOffset, gasLimit, valueOffset, sourceContractAddressOffset, codeMetadataOffset, numArguments, argumentsLengthOffset, dataOffset)
}
func XAsyncCall(context unsafe.Pointer, destOffset int32, valueOffset int32, dataOffset int32, length int32) {
	v1_3_asyncCall(context, destOffset, valueOffset, dataOffset, length)
}
func XGetArgumentLength(context unsafe.Pointer, id int32) int32 {
	return v1_3_getArgumentLength(context, id)
}
func XGetArgument(context unsafe.Pointer, id int32, argOffset int32) int32 {
	return v1_3_getArgument(context, id, argOffset)
}
func XGetFunction(context unsafe.Pointer, functionOffset int32) int32 {
	return v1_3_getFunction(context, functionOffset)
}
func XGetNumArguments(context unsafe.Pointer) int32 { return v1_3_getNumArguments(context) }
func XStorageStore(context unsafe.Pointer, keyOffset int32, keyLength int32, dataOffset int32, dataLength int32) int32 {
	return v1_3_storageStore(context, keyOffset, keyLength, dataOffset, dataLength)
}
func XStorageLoadLength(context unsafe.Pointer, keyOffset int32, keyLength int32) int32 {
	return v1_3_storageLoadLength(context, keyOffset, keyLength)
}
func XStorageLoadFromAddress(context unsafe.Pointer, addressOffset int32, keyOffset int32, keyLength int32, dataOffset int32) int32 {
	return v1_3_storageLoadFromAddress(context, addressOffset, keyOffset, keyLength, dataOffset)
}
func XStorageLoad(context unsafe.Pointer, keyOffset int32, keyLength int32, dataOffset int32) int32 {
	return v1_3_storageLoad(context, keyOffset, keyLength, dataOffset)
}
func XSetStorageLock(context unsafe.Pointer, keyOffset int32, keyLength int32, lockTimestamp int64) int32 {
	return v1_3_setStorageLock(context, keyOffset, keyLength, lockTimestamp)
}
func XGetStorageLock(context unsafe.Pointer, keyOffset int32, keyLength int32) int64 {
	return v1_3_getStorageLock(context, keyOffset, keyLength)
}
func XIsStorageLocked(context unsafe.Pointer, keyOffset int32, keyLength int32) int32 {
	return v1_3_isStorageLocked(context, keyOffset, keyLength)
}
func XClearStorageLock(context unsafe.Pointer, keyOffset int32, keyLength int32) int32 {
	return v1_3_clearStorageLock(context, keyOffset, keyLength)
}
func XGetCaller(context unsafe.Pointer, resultOffset int32) { v1_3_getCaller(context, resultOffset) }
func XCheckNoPayment(context unsafe.Pointer)                { v1_3_checkNoPayment(context) }
func XCallValue(context unsafe.Pointer, resultOffset int32) int32 {
	return v1_3_callValue(context, resultOffset)
}
func XGetESDTValue(context unsafe.Pointer, resultOffset int32) int32 {
	return v1_3_getESDTValue(context, resultOffset)
}
func XGetESDTTokenName(context unsafe.Pointer, resultOffset int32) int32 {
	return v1_3_getESDTTokenName(context, resultOffset)
}
func XGetESDTTokenNonce(context unsafe.Pointer) int64 { return v1_3_getESDTTokenNonce(context) }
func XGetCurrentESDTNFTNonce(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32) int64 {
	return v1_3_getCurrentESDTNFTNonce(context, addressOffset, tokenIDOffset, tokenIDLen)
}
func XGetESDTTokenType(context unsafe.Pointer) int32 { return v1_3_getESDTTokenType(context) }
func XGetCallValueTokenName(context unsafe.Pointer, callValueOffset int32, tokenNameOffset int32) int32 {
	return v1_3_getCallValueTokenName(context, callValueOffset, tokenNameOffset)
}
func XWriteLog(context unsafe.Pointer, dataPointer int32, dataLength int32, topicPtr int32, numTopics int32) {
	v1_3_writeLog(context, dataPointer, dataLength, topicPtr, numTopics)
}
func XWriteEventLog(context unsafe.Pointer, numTopics int32, topicLengthsOffset int32, topicOffset int32, dataOffset int32, dataLength int32) {
	v1_3_writeEventLog(context, numTopics, topicLengthsOffset, topicOffset, dataOffset, dataLength)
}
func XGetBlockTimestamp(context unsafe.Pointer) int64 { return v1_3_getBlockTimestamp(context) }
func XGetBlockNonce(context unsafe.Pointer) int64     { return v1_3_getBlockNonce(context) }
func XGetBlockRound(context unsafe.Pointer) int64     { return v1_3_getBlockRound(context) }
func XGetBlockEpoch(context unsafe.Pointer) int64     { return v1_3_getBlockEpoch(context) }
func XGetBlockRandomSeed(context unsafe.Pointer, pointer int32) {
	v1_3_getBlockRandomSeed(context, pointer)
}
func XGetStateRootHash(context unsafe.Pointer, pointer int32) {
	v1_3_getStateRootHash(context, pointer)
}
func XGetPrevBlockTimestamp(context unsafe.Pointer) int64 { return v1_3_getPrevBlockTimestamp(context) }
func XGetPrevBlockNonce(context unsafe.Pointer) int64     { return v1_3_getPrevBlockNonce(context) }
func XGetPrevBlockRound(context unsafe.Pointer) int64     { return v1_3_getPrevBlockRound(context) }
func XGetPrevBlockEpoch(context unsafe.Pointer) int64     { return v1_3_getPrevBlockEpoch(context) }
func XGetPrevBlockRandomSeed(context unsafe.Pointer, pointer int32) {
	v1_3_getPrevBlockRandomSeed(context, pointer)
}
func XReturnData(context unsafe.Pointer, pointer int32, length int32) {
	v1_3_returnData(context, pointer, length)
}
func XExecuteOnSameContext(context unsafe.Pointer, gasLimit int64, addressOffset int32, valueOffset int32, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_executeOnSameContext(context, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XExecuteOnDestContext(context unsafe.Pointer, gasLimit int64, addressOffset int32, valueOffset int32, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_executeOnDestContext(context, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XExecuteOnDestContextByCaller(context unsafe.Pointer, gasLimit int64, addressOffset int32, valueOffset int32, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_executeOnDestContextByCaller(context, gasLimit, addressOffset, valueOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XDelegateExecution(context unsafe.Pointer, gasLimit int64, addressOffset int32, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_delegateExecution(context, gasLimit, addressOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XExecuteReadOnly(context unsafe.Pointer, gasLimit int64, addressOffset int32, functionOffset int32, functionLength int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_executeReadOnly(context, gasLimit, addressOffset, functionOffset, functionLength, numArguments, argumentsLengthOffset, dataOffset)
}
func XCreateContract(context unsafe.Pointer, gasLimit int64, valueOffset int32, codeOffset int32, codeMetadataOffset int32, length int32, resultOffset int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_createContract(context, gasLimit, valueOffset, codeOffset, codeMetadataOffset, length, resultOffset, numArguments, argumentsLengthOffset, dataOffset)
}
func XDeployFromSourceContract(context unsafe.Pointer, gasLimit int64, valueOffset int32, sourceContractAddressOffset int32, codeMetadataOffset int32, resultAddressOffset int32, numArguments int32, argumentsLengthOffset int32, dataOffset int32) int32 {
	return v1_3_deployFromSourceContract(context, gasLimit, valueOffset, sourceContractAddressOffset, codeMetadataOffset, resultAddressOffset, numArguments, argumentsLengthOffset, dataOffset)
}
func XGetNumReturnData(context unsafe.Pointer) int32 { return v1_3_getNumReturnData(context) }
func XGetReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
	return v1_3_getReturnDataSize(context, resultID)
}
func XGetReturnData(context unsafe.Pointer, resultID int32, dataOffset int32) int32 {
	return v1_3_getReturnData(context, resultID, dataOffset)
}
func XGetOriginalTxHash(context unsafe.Pointer, dataOffset int32) {
	v1_3_getOriginalTxHash(context, dataOffset)
}
func XBigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destination int32) {
	v1_3_bigIntGetUnsignedArgument(context, id, destination)
}
func XBigIntGetSignedArgument(context unsafe.Pointer, id int32, destination int32) {
	v1_3_bigIntGetSignedArgument(context, id, destination)
}
func XBigIntStorageStoreUnsigned(context unsafe.Pointer, keyOffset int32, keyLength int32, source int32) int32 {
	return v1_3_bigIntStorageStoreUnsigned(context, keyOffset, keyLength, source)
}
func XBigIntStorageLoadUnsigned(context unsafe.Pointer, keyOffset int32, keyLength int32, destination int32) int32 {
	return v1_3_bigIntStorageLoadUnsigned(context, keyOffset, keyLength, destination)
}
func XBigIntGetCallValue(context unsafe.Pointer, destination int32) {
	v1_3_bigIntGetCallValue(context, destination)
}
func XBigIntGetESDTCallValue(context unsafe.Pointer, destination int32) {
	v1_3_bigIntGetESDTCallValue(context, destination)
}
func XBigIntGetExternalBalance(context unsafe.Pointer, addressOffset int32, result int32) {
	v1_3_bigIntGetExternalBalance(context, addressOffset, result)
}
func XBigIntGetESDTExternalBalance(context unsafe.Pointer, addressOffset int32, tokenIDOffset int32, tokenIDLen int32, nonce int64, result int32) {
	v1_3_bigIntGetESDTExternalBalance(context, addressOffset, tokenIDOffset, tokenIDLen, nonce, result)
}
func XBigIntNew(context unsafe.Pointer, smallValue int64) int32 {
	return v1_3_bigIntNew(context, smallValue)
}
func XBigIntUnsignedByteLength(context unsafe.Pointer, reference int32) int32 {
	return v1_3_bigIntUnsignedByteLength(context, reference)
}
func XBigIntSignedByteLength(context unsafe.Pointer, reference int32) int32 {
	return v1_3_bigIntSignedByteLength(context, reference)
}
func XBigIntGetUnsignedBytes(context unsafe.Pointer, reference int32, byteOffset int32) int32 {
	return v1_3_bigIntGetUnsignedBytes(context, reference, byteOffset)
}
func XBigIntGetSignedBytes(context unsafe.Pointer, reference int32, byteOffset int32) int32 {
	return v1_3_bigIntGetSignedBytes(context, reference, byteOffset)
}
func XBigIntSetUnsignedBytes(context unsafe.Pointer, destination int32, byteOffset int32, byteLength int32) {
	v1_3_bigIntSetUnsignedBytes(context, destination, byteOffset, byteLength)
}
func XBigIntSetSignedBytes(context unsafe.Pointer, destination int32, byteOffset int32, byteLength int32) {
	v1_3_bigIntSetSignedBytes(context, destination, byteOffset, byteLength)
}
func XBigIntIsInt64(context unsafe.Pointer, handle int32) int32 {
	return v1_3_bigIntIsInt64(context, handle)
}
func XBigIntGetInt64(context unsafe.Pointer, handle int32) int64 {
	return v1_3_bigIntGetInt64(context, handle)
}
func XBigIntSetInt64(context unsafe.Pointer, destination int32, value int64) {
	v1_3_bigIntSetInt64(context, destination, value)
}
func XBigIntAdd(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntAdd(context, destination, op1, op2)
}
func XBigIntSub(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntSub(context, destination, op1, op2)
}
func XBigIntMul(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntMul(context, destination, op1, op2)
}
func XBigIntTDiv(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntTDiv(context, destination, op1, op2)
}
func XBigIntTMod(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntTMod(context, destination, op1, op2)
}
func XBigIntEDiv(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntEDiv(context, destination, op1, op2)
}
func XBigIntEMod(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntEMod(context, destination, op1, op2)
}
func XBigIntAbs(context unsafe.Pointer, destination int32, op int32) {
	v1_3_bigIntAbs(context, destination, op)
}
func XBigIntNeg(context unsafe.Pointer, destination int32, op int32) {
	v1_3_bigIntNeg(context, destination, op)
}
func XBigIntSign(context unsafe.Pointer, op int32) int32 { return v1_3_bigIntSign(context, op) }
func XBigIntCmp(context unsafe.Pointer, op1 int32, op2 int32) int32 {
	return v1_3_bigIntCmp(context, op1, op2)
}
func XBigIntNot(context unsafe.Pointer, destination int32, op int32) {
	v1_3_bigIntNot(context, destination, op)
}
func XBigIntAnd(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntAnd(context, destination, op1, op2)
}
func XBigIntOr(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntOr(context, destination, op1, op2)
}
func XBigIntXor(context unsafe.Pointer, destination int32, op1 int32, op2 int32) {
	v1_3_bigIntXor(context, destination, op1, op2)
}
func XBigIntShr(context unsafe.Pointer, destination int32, op int32, bits int32) {
	v1_3_bigIntShr(context, destination, op, bits)
}
func XBigIntShl(context unsafe.Pointer, destination int32, op int32, bits int32) {
	v1_3_bigIntShl(context, destination, op, bits)
}
func XBigIntFinishUnsigned(context unsafe.Pointer, reference int32) {
	v1_3_bigIntFinishUnsigned(context, reference)
}
func XBigIntFinishSigned(context unsafe.Pointer, reference int32) {
	v1_3_bigIntFinishSigned(context, reference)
}
func XSmallIntGetUnsignedArgument(context unsafe.Pointer, id int32) int64 {
	return v1_3_smallIntGetUnsignedArgument(context, id)
}
func XSmallIntGetSignedArgument(context unsafe.Pointer, id int32) int64 {
	return v1_3_smallIntGetSignedArgument(context, id)
}
func XSmallIntFinishUnsigned(context unsafe.Pointer, value int64) {
	v1_3_smallIntFinishUnsigned(context, value)
}
func XSmallIntFinishSigned(context unsafe.Pointer, value int64) {
	v1_3_smallIntFinishSigned(context, value)
}
func XSmallIntStorageStoreUnsigned(context unsafe.Pointer, keyOffset int32, keyLength int32, value int64) int32 {
	return v1_3_smallIntStorageStoreUnsigned(context, keyOffset, keyLength, value)
}
func XSmallIntStorageStoreSigned(context unsafe.Pointer, keyOffset int32, keyLength int32, value int64) int32 {
	return v1_3_smallIntStorageStoreSigned(context, keyOffset, keyLength, value)
}
func XSmallIntStorageLoadUnsigned(context unsafe.Pointer, keyOffset int32, keyLength int32) int64 {
	return v1_3_smallIntStorageLoadUnsigned(context, keyOffset, keyLength)
}
func XSmallIntStorageLoadSigned(context unsafe.Pointer, keyOffset int32, keyLength int32) int64 {
	return v1_3_smallIntStorageLoadSigned(context, keyOffset, keyLength)
}
func XInt64getArgument(context unsafe.Pointer, id int32) int64 {
	return v1_3_int64getArgument(context, id)
}
func XInt64finish(context unsafe.Pointer, value int64) { v1_3_int64finish(context, value) }
func XInt64storageStore(context unsafe.Pointer, keyOffset int32, keyLength int32, value int64) int32 {
	return v1_3_int64storageStore(context, keyOffset, keyLength, value)
}
func XInt64storageLoad(context unsafe.Pointer, keyOffset int32, keyLength int32) int64 {
	return v1_3_int64storageLoad(context, keyOffset, keyLength)
}
