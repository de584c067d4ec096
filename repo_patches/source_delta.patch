From 51c891b2a72455252e11fa75bc4fe72cadf4c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:02 +0000
Subject: [PATCH 01/48] fix: an inner read-only call must not end the enclosing
 read-only mode

---
 arwen/elrondapi/elrondei.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index f4ee745..fe718b5 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2682,9 +2682,10 @@ func ExecuteReadOnlyWithTypedArguments(
 		return 1
 	}
 
+	wasReadOnly := runtime.ReadOnly()
 	runtime.SetReadOnly(true)
 	_, err = host.ExecuteOnSameContext(contractCallInput)
-	runtime.SetReadOnly(false)
+	runtime.SetReadOnly(wasReadOnly)
 	if arwen.WithFaultAndHost(host, err, runtime.ElrondAPIErrorShouldFailExecution()) {
 		return 1
 	}
-- 
2.43.0


From 9f0514cf6888a7ee3e869ee20d6352b7de64f733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 02/48] fix: a nested call whose arguments cannot be read is
 refused

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index fe718b5..99707dd 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -919,6 +919,9 @@ func extractIndirectContractCallArguments(
 		argumentsLengthOffset,
 		dataOffset,
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	gasToUse := math.MulUint64(metering.GasSchedule().BaseOperationCost.DataCopyPerByte, uint64(actualLen))
 	metering.UseGas(gasToUse)
-- 
2.43.0


From 6dd5c248a87648a48d6dd44867d2e10fad2edf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 03/48] fix: reading a result with a negative index is refused

---
 arwen/elrondapi/elrondei.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 99707dd..edcd16c 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2899,7 +2899,7 @@ func v1_3_getReturnDataSize(context unsafe.Pointer, resultID int32) int32 {
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
@@ -2916,7 +2916,7 @@ func v1_3_getReturnData(context unsafe.Pointer, resultID int32, dataOffset int32
 	metering.UseGas(gasToUse)
 
 	returnData := output.ReturnData()
-	if resultID >= int32(len(returnData)) {
+	if resultID < 0 || resultID >= int32(len(returnData)) {
 		return 0
 	}
 
-- 
2.43.0


From ddfec1f39696fcc2fe6d3eaafb32c1031249fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 04/48] fix: reading an argument as big integer with a negative
 index is refused

---
 arwen/elrondapi/bigIntOps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arwen/elrondapi/bigIntOps.go b/arwen/elrondapi/bigIntOps.go
index 1f8cabd..a33880c 100644
--- a/arwen/elrondapi/bigIntOps.go
+++ b/arwen/elrondapi/bigIntOps.go
@@ -274,7 +274,7 @@ func v1_3_bigIntGetUnsignedArgument(context unsafe.Pointer, id int32, destinatio
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
@@ -293,7 +293,7 @@ func v1_3_bigIntGetSignedArgument(context unsafe.Pointer, id int32, destination
 	metering.UseGas(gasToUse)
 
 	args := runtime.Arguments()
-	if int32(len(args)) <= id {
+	if id < 0 || int32(len(args)) <= id {
 		return
 	}
 
-- 
2.43.0


From 6f2858b6ccd16ab38e80c685ed53f7a6bb560213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 05/48] fix: a promise whose data cannot be parsed or whose
 destination fails does not crash the host

---
 arwen/host/asyncCall.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arwen/host/asyncCall.go b/arwen/host/asyncCall.go
index b0586ed..b0224e7 100644
--- a/arwen/host/asyncCall.go
+++ b/arwen/host/asyncCall.go
@@ -522,11 +522,15 @@ func (host *vmHost) processAsyncInfo(asyncInfo *arwen.AsyncContextInfo) (*arwen.
  * processAsyncCall executes an async call and processes the callback if no extra calls are pending
  */
 func (host *vmHost) processAsyncCall(asyncCall *arwen.AsyncGeneratedCall) error {
-	input, _ := host.createDestinationContractCallInput(asyncCall)
+	input, err := host.createDestinationContractCallInput(asyncCall)
+	if err != nil {
+		return err
+	}
+
 	output, asyncMap, executionError := host.ExecuteOnDestContext(input)
 
-	pendingMap := host.getPendingAsyncCalls(asyncMap)
-	if len(pendingMap.AsyncContextMap) == 0 {
+	// there is no async info when the execution fails or ends with a built-in function
+	if asyncMap == nil || len(host.getPendingAsyncCalls(asyncMap).AsyncContextMap) == 0 {
 		return host.callbackAsync(asyncCall, output, executionError)
 	}
 
-- 
2.43.0


From 30c253ce172b6fa9432714536f92a7eb0fa5212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 06/48] fix: getCallValueTokenName returns the name of the
 token

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index edcd16c..88dd96e 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1971,7 +1971,7 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 	esdtTransfer := getFirstESDTTransferIfExist(runtime.GetVMInput())
 
 	if len(esdtTransfer.ESDTTokenName) > 0 {
-		tokenName = make([]byte, 0, len(esdtTransfer.ESDTTokenName))
+		tokenName = make([]byte, len(esdtTransfer.ESDTTokenName))
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
-- 
2.43.0


From fdf1a1442795b625a583712e8761519c07cd7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 07/48] fix: a number of arguments whose lengths overflow is
 refused

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 88dd96e..8afe51a 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -2984,6 +2984,9 @@ func getArgumentsFromMemory(
 	if numArguments < 0 {
 		return nil, 0, fmt.Errorf("negative numArguments (%d)", numArguments)
 	}
+	if numArguments > (1<<31-1)/4 {
+		return nil, 0, fmt.Errorf("too many arguments (%d)", numArguments)
+	}
 
 	argumentsLengthData, err := runtime.MemLoad(argumentsLengthOffset, numArguments*4)
 	if err != nil {
-- 
2.43.0


From 2eec695d8b9cde4f041bd13803d94c21849a59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 08/48] fix: the code of contracts deployed by contracts is
 verified

---
 arwen/contexts/runtime.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index 1ba0bcd..a6d7a73 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -199,7 +199,8 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 
 	context.instance = newInstance
 
-	if newCode || len(codeHash) == 0 {
+	codeToVerify := newCode || len(codeHash) == 0
+	if codeToVerify {
 		codeHash, err = context.host.Crypto().Sha256(contract)
 		if err != nil {
 			context.CleanWasmerInstance()
@@ -213,7 +214,7 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 	hostReference := uintptr(unsafe.Pointer(&context.host))
 	context.instance.SetContextData(hostReference)
 
-	if newCode {
+	if codeToVerify {
 		err = context.VerifyContractCode()
 		if err != nil {
 			context.CleanWasmerInstance()
-- 
2.43.0


From 4566fed5efb23159cf07d258cf0335b58567c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 09/48] fix: code replaced in a transaction is not run or
 compiled under its old hash

---
 arwen/contexts/blockchain.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arwen/contexts/blockchain.go b/arwen/contexts/blockchain.go
index 4f18f9f..fbe6187 100644
--- a/arwen/contexts/blockchain.go
+++ b/arwen/contexts/blockchain.go
@@ -127,8 +127,15 @@ func (context *blockchainContext) GetESDTToken(address []byte, tokenID []byte, n
 	return context.blockChainHook.GetESDTToken(address, tokenID, nonce)
 }
 
-// GetCodeHash returns the code hash that is set tho the given account
+// GetCodeHash returns the code hash that is set tho the given account; code
+// deployed by the current transaction has no hash yet, because the hash held
+// by the blockchain is the one of the code it replaces
 func (context *blockchainContext) GetCodeHash(address []byte) []byte {
+	outputAccount, isNew := context.host.Output().GetOutputAccount(address)
+	if !isNew && len(outputAccount.CodeDeployerAddress) > 0 {
+		return nil
+	}
+
 	account, err := context.blockChainHook.GetUserAccount(address)
 	if err != nil {
 		return nil
-- 
2.43.0


From cc0185d4bbfe2d83cb3b827dba7a13679e907c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 10/48] fix: a warm instance is reused only for the same code
 and when it is not running

---
 arwen/contexts/runtime.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index a6d7a73..e29ada9 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -43,6 +43,7 @@ type runtimeContext struct {
 
 	useWarmInstance     bool
 	warmInstanceAddress []byte
+	warmInstanceCode    []byte
 	warmInstance        wasmer.InstanceHandler
 
 	instanceBuilder arwen.InstanceBuilder
@@ -101,9 +102,12 @@ func (context *runtimeContext) ReplaceInstanceBuilder(builder arwen.InstanceBuil
 	context.instanceBuilder = builder
 }
 
-func (context *runtimeContext) setWarmInstanceWhenNeeded(gasLimit uint64) bool {
+func (context *runtimeContext) setWarmInstanceWhenNeeded(contract []byte, gasLimit uint64, newCode bool) bool {
 	scAddress := context.GetSCAddress()
 	useWarm := context.useWarmInstance && context.warmInstanceAddress != nil && bytes.Equal(scAddress, context.warmInstanceAddress)
+	// new code must be verified, the code of the contract may have changed and
+	// a running instance holds the state of the call it is running
+	useWarm = useWarm && !newCode && bytes.Equal(contract, context.warmInstanceCode) && !context.isOnInstanceStack(context.warmInstance)
 	if scAddress != nil && useWarm {
 		logRuntime.Trace("reusing warm instance")
 
@@ -126,7 +130,7 @@ func (context *runtimeContext) StartWasmerInstance(contract []byte, gasLimit uin
 		return arwen.ErrMaxInstancesReached
 	}
 
-	warmInstanceUsed := context.setWarmInstanceWhenNeeded(gasLimit)
+	warmInstanceUsed := context.setWarmInstanceWhenNeeded(contract, gasLimit, newCode)
 	if warmInstanceUsed {
 		return nil
 	}
@@ -225,6 +229,7 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 
 	if context.useWarmInstance {
 		context.warmInstanceAddress = context.GetSCAddress()
+		context.warmInstanceCode = contract
 		context.warmInstance = context.instance
 		logRuntime.Trace("updated warm instance")
 	}
@@ -281,6 +286,7 @@ func (context *runtimeContext) ResetWarmInstance() {
 
 	context.instance = nil
 	context.warmInstanceAddress = nil
+	context.warmInstanceCode = nil
 	context.warmInstance = nil
 	logRuntime.Trace("warm instance cleaned")
 }
@@ -381,6 +387,17 @@ func (context *runtimeContext) pushInstance() {
 	context.instanceStack = append(context.instanceStack, context.instance)
 }
 
+// isOnInstanceStack returns true if the given instance is already running,
+// below the current one
+func (context *runtimeContext) isOnInstanceStack(instance wasmer.InstanceHandler) bool {
+	for _, runningInstance := range context.instanceStack {
+		if runningInstance == instance {
+			return true
+		}
+	}
+	return false
+}
+
 // popInstance removes the latest entry from the wasmer instance stack and sets it
 // as the current wasmer instance
 func (context *runtimeContext) popInstance() {
-- 
2.43.0


From 01952d3a81387ec225f3ec1320a4a2803d471b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 11/48] fix: a warm instance that is replaced is released

---
 arwen/contexts/runtime.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index e29ada9..a7a8dd4 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -228,6 +228,7 @@ func (context *runtimeContext) makeInstanceFromContractByteCode(contract []byte,
 	}
 
 	if context.useWarmInstance {
+		context.cleanReplacedWarmInstance()
 		context.warmInstanceAddress = context.GetSCAddress()
 		context.warmInstanceCode = contract
 		context.warmInstance = context.instance
@@ -267,6 +268,17 @@ func (context *runtimeContext) saveCompiledCode(codeHash []byte) {
 	blockchain.SaveCompiledCode(codeHash, compiledCode)
 }
 
+// cleanReplacedWarmInstance cleans the instance kept warm until now, unless it
+// is still running; in that case it is cleaned when its execution ends
+func (context *runtimeContext) cleanReplacedWarmInstance() {
+	replaced := context.warmInstance
+	if replaced == nil || context.isOnInstanceStack(replaced) {
+		return
+	}
+
+	replaced.Clean()
+}
+
 // IsWarmInstance returns true if there is a warm instance equal to the current wasmer instance.
 func (context *runtimeContext) IsWarmInstance() bool {
 	if context.instance != nil && context.instance == context.warmInstance {
-- 
2.43.0


From cc7064bc7daf4b050f06c5fbe3a67a7947c85ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 12/48] fix: the instances left by a crash in a nested call are
 released

---
 arwen/contexts/runtime.go | 16 +++++++++++++++-
 arwen/host/arwen.go       |  4 +++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/arwen/contexts/runtime.go b/arwen/contexts/runtime.go
index a7a8dd4..0ae1a3e 100644
--- a/arwen/contexts/runtime.go
+++ b/arwen/contexts/runtime.go
@@ -389,9 +389,23 @@ func (context *runtimeContext) PopDiscard() {
 	context.popInstance()
 }
 
-// ClearStateStack reinitializes the state stack.
+// ClearStateStack reinitializes the state stack. The instances still on the
+// instance stack belong to calls that crashed, thus they are cleaned.
 func (context *runtimeContext) ClearStateStack() {
 	context.stateStack = make([]*runtimeContext, 0)
+
+	for len(context.instanceStack) > 0 {
+		lastIndex := len(context.instanceStack) - 1
+		instance := context.instanceStack[lastIndex]
+		context.instanceStack = context.instanceStack[:lastIndex]
+
+		isStillUsed := instance == context.instance || instance == context.warmInstance || context.isOnInstanceStack(instance)
+		if instance == nil || isStillUsed {
+			continue
+		}
+
+		instance.Clean()
+	}
 }
 
 // pushInstance appends the current wasmer instance to the instance stack.
diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index 782c41d..fd51bfc 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -287,8 +287,10 @@ func (host *vmHost) ClearContextStateStack() {
 	host.storageContext.ClearStateStack()
 }
 
-// Clean closes the currently running Wasmer instance
+// Clean closes the currently running Wasmer instance, and the instances of the
+// calls that did not end because of a crash
 func (host *vmHost) Clean() {
+	host.runtimeContext.ClearStateStack()
 	if host.runtimeContext.IsWarmInstance() {
 		return
 	}
-- 
2.43.0


From b65ed009bc3046dc0b939f3dae5786a4fd4b11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 13/48] fix: a contract cannot be upgraded in read-only mode

---
 arwen/host/execution.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 88aa8c5..9df8991 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -534,6 +534,10 @@ func (host *vmHost) checkUpgradePermission(vmInput *vmcommon.ContractCallInput)
 func (host *vmHost) executeUpgrade(input *vmcommon.ContractCallInput) error {
 	_, _, metering, output, runtime, _ := host.GetContexts()
 
+	if runtime.ReadOnly() {
+		return arwen.ErrInvalidCallOnReadOnlyMode
+	}
+
 	err := host.checkUpgradePermission(input)
 	if err != nil {
 		return err
-- 
2.43.0


From 7554d81e55291856fc722296227339aef96fdacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 14/48] fix: report a non-fungible token transfer that is
 followed by a call

---
 arwen/host/execution.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index 9df8991..e8feb1e 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -763,7 +763,7 @@ func (host *vmHost) addESDTTransferToVMOutputSCIntraShardCall(
 
 	recipientAddr := input.RecipientAddr
 	if input.Function == vmcommon.BuiltInFunctionESDTNFTTransfer {
-		if len(input.Arguments) != 4 {
+		if len(input.Arguments) < 4 {
 			return
 		}
 		recipientAddr = input.Arguments[3]
-- 
2.43.0


From f92a52d0cc1c32d0844c444387fa9b01e236559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 15/48] fix: a token with a nonce above the signed range is not
 fungible

---
 arwen/elrondapi/elrondei.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 8afe51a..74d44c7 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1231,7 +1231,7 @@ func TransferESDTNFTExecuteWithTypedArgs(
 		}
 
 		esdtTokenType := vmcommon.Fungible
-		if nonce > 0 {
+		if nonce != 0 {
 			esdtTokenType = vmcommon.NonFungible
 		}
 		contractCallInput.ESDTTransfers = make([]*vmcommon.ESDTTransfer, 1)
-- 
2.43.0


From 6517058f4380a41d322343c4a8225796611ee27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 16/48] fix: getCallValueTokenName writes a zero value as well

---
 arwen/elrondapi/elrondei.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwen/elrondapi/elrondei.go b/arwen/elrondapi/elrondei.go
index 74d44c7..4f602f4 100644
--- a/arwen/elrondapi/elrondei.go
+++ b/arwen/elrondapi/elrondei.go
@@ -1975,6 +1975,9 @@ func v1_3_getCallValueTokenName(context unsafe.Pointer, callValueOffset int32, t
 		copy(tokenName, esdtTransfer.ESDTTokenName)
 		callValue = esdtTransfer.ESDTValue.Bytes()
 	}
+	if len(callValue) == 0 {
+		callValue = make([]byte, arwen.BalanceLen)
+	}
 	callValue = arwen.PadBytesLeft(callValue, arwen.BalanceLen)
 
 	err := runtime.MemStore(tokenNameOffset, tokenName)
-- 
2.43.0


From 44c08e2c8ce14d78567c6dde638c26ddab6b72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 17/48] fix: the gas locked for an async callback is available
 to it

---
 arwen/host/execution.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arwen/host/execution.go b/arwen/host/execution.go
index e8feb1e..f44b800 100644
--- a/arwen/host/execution.go
+++ b/arwen/host/execution.go
@@ -153,8 +153,10 @@ func (host *vmHost) doRunSmartContractCall(input *vmcommon.ContractCallInput) (v
 
 	_, _, metering, output, runtime, storage := host.GetContexts()
 
-	runtime.InitStateFromContractCallInput(input)
+	// the metering context unlocks the gas of async callbacks in the input, which
+	// the runtime context then copies
 	metering.InitStateFromContractCallInput(&input.VMInput)
+	runtime.InitStateFromContractCallInput(input)
 	output.AddTxValueToAccount(input.RecipientAddr, input.CallValue)
 	storage.SetAddress(runtime.GetSCAddress())
 
@@ -270,12 +272,14 @@ func (host *vmHost) executeOnDestContextNoBuiltinFunction(input *vmcommon.Contra
 	output.CensorVMOutput()
 
 	copyTxHashesFromContext(host.IsESDTFunctionsEnabled(), runtime, input)
-	runtime.PushState()
-	runtime.InitStateFromContractCallInput(input)
-
+	// the metering context unlocks the gas of async callbacks in the input, which
+	// the runtime context then copies
 	metering.PushState()
 	metering.InitStateFromContractCallInput(&input.VMInput)
 
+	runtime.PushState()
+	runtime.InitStateFromContractCallInput(input)
+
 	storage.PushState()
 	storage.SetAddress(runtime.GetSCAddress())
 
-- 
2.43.0


From e84b9e2527034b993772dcf630fc060bd718446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 18/48] fix: custom storage keys do not write into the array of
 the key they extend

---
 arwen/helpers.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arwen/helpers.go b/arwen/helpers.go
index 8e78b62..75f2729 100644
--- a/arwen/helpers.go
+++ b/arwen/helpers.go
@@ -21,7 +21,9 @@ var One = big.NewInt(1)
 
 // CustomStorageKey appends the given key type to the given associated key
 func CustomStorageKey(keyType string, associatedKey []byte) []byte {
-	return append(associatedKey, []byte(keyType)...)
+	customKey := make([]byte, 0, len(associatedKey)+len(keyType))
+	customKey = append(customKey, associatedKey...)
+	return append(customKey, keyType...)
 }
 
 // BooleanToInt returns 1 if the given bool is true, 0 otherwise
-- 
2.43.0


From 77e3fe472738e4a4e1d141ba5094400b5af6487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 19/48] fix: a refused gas schedule does not replace the
 current one

---
 arwen/host/arwen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arwen/host/arwen.go b/arwen/host/arwen.go
index fd51bfc..51095c9 100644
--- a/arwen/host/arwen.go
+++ b/arwen/host/arwen.go
@@ -307,13 +307,13 @@ func (host *vmHost) GasScheduleChange(newGasSchedule config.GasScheduleMap) {
 	host.mutExecution.Lock()
 	defer host.mutExecution.Unlock()
 
-	host.gasSchedule = newGasSchedule
 	gasCostConfig, err := config.CreateGasConfig(newGasSchedule)
 	if err != nil {
 		log.Error("cannot apply new gas config remained with old one")
 		return
 	}
 
+	host.gasSchedule = newGasSchedule
 	opcodeCosts := gasCostConfig.WASMOpcodeCost.ToOpcodeCostsArray()
 	wasmer.SetOpcodeCosts(&opcodeCosts)
 
-- 
2.43.0


From a665d88a1bc81b7720ec00ad59a04c43466a6aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:26 +0000
Subject: [PATCH 20/48] fix: opcode costs that do not fit the cost table are
 refused instead of truncated

---
 config/gasSchedule.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/config/gasSchedule.go b/config/gasSchedule.go
index 85a434b..7433afe 100644
--- a/config/gasSchedule.go
+++ b/config/gasSchedule.go
@@ -2,6 +2,7 @@ package config
 
 import (
 	"fmt"
+	"math"
 	"reflect"
 
 	"github.com/mitchellh/mapstructure"
@@ -70,6 +71,11 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 		return nil, err
 	}
 
+	err = checkUint32Costs(gasMap["WASMOpcodeCost"])
+	if err != nil {
+		return nil, err
+	}
+
 	opcodeCosts := &WASMOpcodeCost{}
 	err = mapstructure.Decode(gasMap["WASMOpcodeCost"], opcodeCosts)
 	if err != nil {
@@ -93,6 +99,17 @@ func CreateGasConfig(gasMap GasScheduleMap) (*GasCost, error) {
 	return gasCost, nil
 }
 
+// checkUint32Costs refuses costs that would be truncated by the opcode cost table
+func checkUint32Costs(costs map[string]uint64) error {
+	for name, cost := range costs {
+		if cost > math.MaxUint32 {
+			return fmt.Errorf("Gas cost for operation %s is too large.", name)
+		}
+	}
+
+	return nil
+}
+
 func checkForZeroUint64Fields(arg interface{}) error {
 	v := reflect.ValueOf(arg)
 	for i := 0; i < v.NumField(); i++ {
-- 
2.43.0


From 58b890e2d27040fa6f9dabccefda05e2ea3026cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 21/48] fix: error texts with percent signs pass the pipe
 unchanged

---
 ipc/common/messages.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 3b128cf..30f8c6a 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"errors"
 	"fmt"
 	"math"
 )
@@ -209,7 +210,7 @@ func (message *Message) GetError() error {
 		return nil
 	}
 
-	return fmt.Errorf(message.ErrorMessage)
+	return errors.New(message.ErrorMessage)
 }
 
 // SetError sets the error within the message
-- 
2.43.0


From 65f8891c25af60e47b739c5df914efc4b18763ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:09 +0000
Subject: [PATCH 22/48] fix: node part answers all hook calls of the machine

---
 ipc/common/messages.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ipc/common/messages.go b/ipc/common/messages.go
index 30f8c6a..8fee7a0 100644
--- a/ipc/common/messages.go
+++ b/ipc/common/messages.go
@@ -287,7 +287,9 @@ func CreateReplySlots(noopReplier MessageReplier) []MessageReplier {
 // IsHookCall returns whether a message is a hook call
 func IsHookCall(message MessageHandler) bool {
 	kind := message.GetKind()
-	return kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	isHookCall := kind >= BlockchainNewAddressRequest && kind <= BlockchainGetCompiledCodeResponse
+	isLateHookCall := kind >= BlockchainClearCompiledCodesRequest && kind <= BlockchainProcessBuiltInFunctionResponse
+	return isHookCall || isLateHookCall
 }
 
 // IsStopRequest returns whether a message is a stop request
-- 
2.43.0


From 9fc952bc7d70538e99f4e4b706a26ab487be1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 23/48] fix: gas schedule changes can be received over the pipe

---
 ipc/common/messagesFactory.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ipc/common/messagesFactory.go b/ipc/common/messagesFactory.go
index d9f24dc..8f4bb04 100644
--- a/ipc/common/messagesFactory.go
+++ b/ipc/common/messagesFactory.go
@@ -31,6 +31,7 @@ func init() {
 	messageCreators[DiagnoseWaitResponse] = createMessageDiagnoseWaitResponse
 	messageCreators[VersionRequest] = createMessageVersionRequest
 	messageCreators[VersionResponse] = createMessageVersionResponse
+	messageCreators[GasScheduleChangeRequest] = createMessageGasScheduleChangeRequest
 
 	messageCreators[BlockchainNewAddressRequest] = createMessageBlockchainNewAddressRequest
 	messageCreators[BlockchainNewAddressResponse] = createMessageBlockchainNewAddressResponse
@@ -129,6 +130,10 @@ func createMessageVersionResponse() MessageHandler {
 	return &MessageVersionResponse{}
 }
 
+func createMessageGasScheduleChangeRequest() MessageHandler {
+	return &MessageGasScheduleChangeRequest{}
+}
+
 func createUndefinedMessage() MessageHandler {
 	return NewUndefinedMessage()
 }
-- 
2.43.0


From 6019d9dff9bab8c4d825bf373be25dbd57f89f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 24/48] fix: a failed revert on the node's side is reported to
 the machine

---
 ipc/arwenpart/blockchainGateway.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 035dc96..703f7f8 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -504,5 +504,5 @@ func (blockchain *BlockchainHookGateway) RevertToSnapshot(snapshot int) error {
 		return common.ErrBadHookResponseFromNode
 	}
 
-	return err
+	return rawResponse.GetError()
 }
-- 
2.43.0


From 1e24311a6c347c5ed6e5c74e35edd0d835bba36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 25/48] fix: refuse a message of another kind than announced

---
 ipc/common/errors.go   | 3 +++
 ipc/common/receiver.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/ipc/common/errors.go b/ipc/common/errors.go
index 0f0c315..86e00fe 100644
--- a/ipc/common/errors.go
+++ b/ipc/common/errors.go
@@ -44,6 +44,9 @@ var ErrArwenNotFound = &CriticalError{InnerErr: fmt.Errorf("arwen binary not fou
 // ErrInvalidMessageNonce signals a critical error
 var ErrInvalidMessageNonce = &CriticalError{InnerErr: fmt.Errorf("invalid dialogue nonce")}
 
+// ErrMessageKindMismatch signals a critical error
+var ErrMessageKindMismatch = &CriticalError{InnerErr: fmt.Errorf("message kind differs from the one announced")}
+
 // ErrStopPerNodeRequest signals a critical error
 var ErrStopPerNodeRequest = &CriticalError{InnerErr: fmt.Errorf("arwen will stop, as requested")}
 
diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index f3e9329..45e2b2d 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -82,6 +82,10 @@ func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHand
 		return nil, err
 	}
 
+	if message.GetKind() != kind {
+		return nil, ErrMessageKindMismatch
+	}
+
 	return message, nil
 }
 
-- 
2.43.0


From 55455fda108bf1cea9c7aaba984833e0b0273d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:04 +0000
Subject: [PATCH 26/48] fix: a message of an unknown kind is refused by the
 receiver

---
 ipc/common/receiver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ipc/common/receiver.go b/ipc/common/receiver.go
index 45e2b2d..7e72e48 100644
--- a/ipc/common/receiver.go
+++ b/ipc/common/receiver.go
@@ -70,6 +70,10 @@ func (receiver *Receiver) receiveMessageLengthAndKind() (int, MessageKind, error
 }
 
 func (receiver *Receiver) readMessage(kind MessageKind, length int) (MessageHandler, error) {
+	if kind >= LastKind {
+		return nil, ErrMessageKindMismatch
+	}
+
 	buffer := make([]byte, length)
 	_, err := io.ReadFull(receiver.reader, buffer)
 	if err != nil {
-- 
2.43.0


From 85d9135ec02a0196dbcb15a697af975d37f48009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:12 +0000
Subject: [PATCH 27/48] fix: a contract request without input is answered with
 an error

---
 ipc/arwenpart/part.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipc/arwenpart/part.go b/ipc/arwenpart/part.go
index d3f2656..f18c732 100644
--- a/ipc/arwenpart/part.go
+++ b/ipc/arwenpart/part.go
@@ -101,12 +101,20 @@ func (part *ArwenPart) replyToNodeRequest(request common.MessageHandler) common.
 
 func (part *ArwenPart) replyToRunSmartContractCreate(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractDeployRequest)
+	if typedRequest.CreateInput == nil {
+		return common.NewMessageContractResponse(nil, common.ErrBadRequestFromNode)
+	}
+
 	vmOutput, err := part.VMHost.RunSmartContractCreate(typedRequest.CreateInput)
 	return common.NewMessageContractResponse(vmOutput, err)
 }
 
 func (part *ArwenPart) replyToRunSmartContractCall(request common.MessageHandler) common.MessageHandler {
 	typedRequest := request.(*common.MessageContractCallRequest)
+	if typedRequest.CallInput == nil {
+		return common.NewMessageContractResponse(nil, common.ErrBadRequestFromNode)
+	}
+
 	vmOutput, err := part.VMHost.RunSmartContractCall(typedRequest.CallInput)
 	return common.NewMessageContractResponse(vmOutput, err)
 }
-- 
2.43.0


From e6612754ad55ef2b80c3c52cdfd6478cea3e0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 28/48] fix: a hook answer without its result is refused, not
 dereferenced

---
 ipc/arwenpart/blockchainGateway.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ipc/arwenpart/blockchainGateway.go b/ipc/arwenpart/blockchainGateway.go
index 703f7f8..3d1c75a 100644
--- a/ipc/arwenpart/blockchainGateway.go
+++ b/ipc/arwenpart/blockchainGateway.go
@@ -270,6 +270,10 @@ func (blockchain *BlockchainHookGateway) ProcessBuiltInFunction(input *vmcommon.
 	}
 
 	response := rawResponse.(*common.MessageBlockchainProcessBuiltInFunctionResponse)
+	if response.VmOutput == nil {
+		return nil, common.ErrBadHookResponseFromNode
+	}
+
 	return response.VmOutput.ConvertToVMOutput(), response.GetError()
 }
 
@@ -304,6 +308,10 @@ func (blockchain *BlockchainHookGateway) GetAllState(address []byte) (map[string
 	}
 
 	response := rawResponse.(*common.MessageBlockchainGetAllStateResponse)
+	if response.Result == nil {
+		return nil, common.ErrBadHookResponseFromNode
+	}
+
 	return response.Result.ConvertToMap(), response.GetError()
 }
 
-- 
2.43.0


From 515e3f060900494f9be2b8a67bf0996c493282a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 29/48] fix: a fixed width signed number without digits is an
 error, not a panic

---
 mandos-go/expression/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index 4cc5a55..e282b54 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -182,6 +182,10 @@ func (ei *ExprInterpreter) InterpretString(strRaw string) ([]byte, error) {
 
 // targetWidth = 0 means minimum length that can contain the result
 func (ei *ExprInterpreter) interpretNumber(strRaw string, targetWidth int) ([]byte, error) {
+	if len(strRaw) == 0 {
+		return []byte{}, errors.New("number expected, nothing found")
+	}
+
 	// signed numbers
 	if strRaw[0] == '-' || strRaw[0] == '+' {
 		numberBytes, err := ei.interpretUnsignedNumber(strRaw[1:])
-- 
2.43.0


From 0ed369f005e1c94942eff17a8943ba31d606a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 30/48] fix: binary numbers have no sign after the prefix

---
 mandos-go/expression/interpreter/interpreter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mandos-go/expression/interpreter/interpreter.go b/mandos-go/expression/interpreter/interpreter.go
index e282b54..8c0ad6a 100644
--- a/mandos-go/expression/interpreter/interpreter.go
+++ b/mandos-go/expression/interpreter/interpreter.go
@@ -228,8 +228,9 @@ func (ei *ExprInterpreter) interpretUnsignedNumber(strRaw string) ([]byte, error
 	if strings.HasPrefix(strRaw, "0b") || strings.HasPrefix(strRaw, "0B") {
 		result := new(big.Int)
 		var parseOk bool
-		result, parseOk = result.SetString(str[2:], 2)
-		if !parseOk {
+		digits := str[2:]
+		result, parseOk = result.SetString(digits, 2)
+		if !parseOk || digits[0] == '-' || digits[0] == '+' {
 			return []byte{}, fmt.Errorf("could not parse binary value: %s", strRaw)
 		}
 
-- 
2.43.0


From 4348e8f2731f60591380a13999dd7f7ebcb4f6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 31/48] fix: write the shard of contract addresses with two
 digits

---
 mandos-go/expression/reconstructor/reconstructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index eaa52f1..4baca19 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -95,7 +95,7 @@ func addressPretty(value []byte) string {
 			addrStr := string(value[ei.SCAddressNumLeadingZeros:31])
 			addrStr = strings.TrimRight(addrStr, "_")
 			shard_id := value[31]
-			return fmt.Sprintf("sc:%s#%x", addrStr, shard_id)
+			return fmt.Sprintf("sc:%s#%02x", addrStr, shard_id)
 		}
 	}
 
-- 
2.43.0


From 6c43cdfa7545b99990fbdf30f8a27d1e90e7b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 32/48] fix: texts and addresses that contain separators are
 written as hex

---
 mandos-go/expression/reconstructor/reconstructor.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mandos-go/expression/reconstructor/reconstructor.go b/mandos-go/expression/reconstructor/reconstructor.go
index 4baca19..00cfeac 100644
--- a/mandos-go/expression/reconstructor/reconstructor.go
+++ b/mandos-go/expression/reconstructor/reconstructor.go
@@ -40,6 +40,9 @@ func (er *ExprReconstructor) Reconstruct(value []byte, hint ExprReconstructorHin
 	case NumberHint:
 		return fmt.Sprintf("%d", big.NewInt(0).SetBytes(value))
 	case StrHint:
+		if bytes.ContainsAny(value, "|") {
+			return hexPretty(value)
+		}
 		return fmt.Sprintf("str:%s", string(value))
 	case AddressHint:
 		return addressPretty(value)
@@ -83,6 +86,11 @@ func addressPretty(value []byte) string {
 		return unknownByteArrayPretty(value)
 	}
 
+	// such names cannot be written in an address expression
+	if bytes.ContainsAny(value[:31], "|#") || value[31] == '_' && bytes.ContainsAny(value, "|#") {
+		return hexPretty(value)
+	}
+
 	// smart contract addresses
 	leadingZeros := make([]byte, ei.SCAddressNumLeadingZeros)
 	if bytes.Equal(value[:ei.SCAddressNumLeadingZeros], leadingZeros) {
@@ -125,6 +133,10 @@ func canInterpretAsString(bytes []byte) bool {
 	return true
 }
 
+func hexPretty(value []byte) string {
+	return fmt.Sprintf("0x%s", hex.EncodeToString(value))
+}
+
 func codePretty(bytes []byte) string {
 	if len(bytes) == 0 {
 		return ""
-- 
2.43.0


From bedf61ddfe82c0e7cdd84ac49084a0690b4c44c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 33/48] fix: list items and map entries are separated by
 exactly one comma

---
 mandos-go/orderedjson/ojParse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index d1d3f49..c90a0ff 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -122,6 +122,8 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						done = false
 					} else if c == ',' {
 						stateStack.push(&jsonParserStateAnyObjPlaceholder{})
+					} else {
+						return nil, errors.New("invalid list state")
 					}
 				}
 			case *jsonParserStateMap:
@@ -130,7 +132,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 				} else if c == '}' {
 					pendingResult = specificState.currentMap
 					stateStack.pop()
-				} else if c == ',' {
+				} else if c == ',' && specificState.currentMap.Size() > 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
 				} else if specificState.currentMap.Size() == 0 {
 					stateStack.push(&jsonStateMapKeyValue{})
-- 
2.43.0


From 141c580178dc4e4ba69d6f66475e67bc17d977de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 34/48] fix: an escaped backslash before the closing quote

---
 mandos-go/orderedjson/ojParse.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mandos-go/orderedjson/ojParse.go b/mandos-go/orderedjson/ojParse.go
index c90a0ff..3159c9e 100644
--- a/mandos-go/orderedjson/ojParse.go
+++ b/mandos-go/orderedjson/ojParse.go
@@ -15,6 +15,7 @@ type jsonParserStateAnyObjPlaceholder struct {
 type jsonParserStateSingleValue struct {
 	buffer       bytes.Buffer
 	stringEscape bool
+	escapeNext   bool
 }
 
 type jsonParserStateMap struct {
@@ -22,9 +23,10 @@ type jsonParserStateMap struct {
 }
 
 type jsonStateMapKeyValue struct {
-	keyBuffer bytes.Buffer
-	state     int // 0=key, 1=':', 2=value
-	currentKV OJsonKeyValuePair
+	keyBuffer  bytes.Buffer
+	state      int // 0=key, 1=':', 2=value
+	currentKV  OJsonKeyValuePair
+	escapeNext bool
 }
 
 type jsonParserStateList struct {
@@ -41,7 +43,7 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 	stateStack.push(&jsonParserStateAnyObjPlaceholder{})
 	var pendingResult OJsonObject
 
-	for i, c := range input {
+	for _, c := range input {
 		done := false
 		for !done {
 			done = true
@@ -80,10 +82,13 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 					specificState.stringEscape = (c == '"')
 					specificState.buffer.WriteByte(c)
 				} else {
-					prevChar := input[i-1]
 					if specificState.stringEscape {
 						specificState.buffer.WriteByte(c)
-						if c == '"' && prevChar != '\\' {
+						if specificState.escapeNext {
+							specificState.escapeNext = false
+						} else if c == '\\' {
+							specificState.escapeNext = true
+						} else if c == '"' {
 							stateStack.pop()
 							var err error
 							pendingResult, err = specificState.finalize()
@@ -154,8 +159,11 @@ func ParseOrderedJSON(input []byte) (OJsonObject, error) {
 						}
 					} else {
 						specificState.keyBuffer.WriteByte(c)
-						prevChar := input[i-1]
-						if c == '"' && prevChar != '\\' {
+						if specificState.escapeNext {
+							specificState.escapeNext = false
+						} else if c == '\\' {
+							specificState.escapeNext = true
+						} else if c == '"' {
 							specificState.state = 1
 						}
 					}
-- 
2.43.0


From d01ea4c745dbd71a84e896820ae35e06739756a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 35/48] fix: values without original text are written as hex
 with its prefix

---
 mandos-go/json/write/writeCommon.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/write/writeCommon.go b/mandos-go/json/write/writeCommon.go
index 8d0d21c..b01885d 100644
--- a/mandos-go/json/write/writeCommon.go
+++ b/mandos-go/json/write/writeCommon.go
@@ -120,7 +120,7 @@ func checkBigIntToOJ(i mj.JSONCheckBigInt) oj.OJsonObject {
 
 func bytesFromStringToString(bytes mj.JSONBytesFromString) string {
 	if len(bytes.Original) == 0 && len(bytes.Value) > 0 {
-		bytes.Original = hex.EncodeToString(bytes.Value)
+		bytes.Original = "0x" + hex.EncodeToString(bytes.Value)
 	}
 	return bytes.Original
 }
@@ -130,15 +130,15 @@ func bytesFromStringToOJ(bytes mj.JSONBytesFromString) oj.OJsonObject {
 }
 
 func bytesFromTreeToOJ(bytes mj.JSONBytesFromTree) oj.OJsonObject {
-	if bytes.OriginalEmpty() {
-		bytes.Original = &oj.OJsonString{Value: hex.EncodeToString(bytes.Value)}
+	if bytes.OriginalEmpty() && len(bytes.Value) > 0 {
+		bytes.Original = &oj.OJsonString{Value: "0x" + hex.EncodeToString(bytes.Value)}
 	}
 	return bytes.Original
 }
 
 func checkBytesToOJ(checkBytes mj.JSONCheckBytes) oj.OJsonObject {
 	if checkBytes.OriginalEmpty() && len(checkBytes.Value) > 0 {
-		checkBytes.Original = &oj.OJsonString{Value: hex.EncodeToString(checkBytes.Value)}
+		checkBytes.Original = &oj.OJsonString{Value: "0x" + hex.EncodeToString(checkBytes.Value)}
 	}
 	return checkBytes.Original
 }
-- 
2.43.0


From a17fb4464a390fa566ae9999adfdbf2cbbb26e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 36/48] fix: write the expected uri of a token, not its creator

---
 mandos-go/json/write/writeESDTCheck.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 6ce84de..a4b29bd 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -74,7 +74,7 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
 	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
-		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Creator))
+		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
 	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
-- 
2.43.0


From dc2da7f571c8e0532470af19b303467c1c75868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 37/48] fix: do not drop expectations that any or no value is
 met

---
 mandos-go/json/write/writeESDTCheck.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index a4b29bd..609a54d 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -64,19 +64,19 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 	if len(esdtInstance.Balance.Original) > 0 {
 		targetOj.Put("balance", checkBigIntToOJ(esdtInstance.Balance))
 	}
-	if !esdtInstance.Creator.Unspecified && len(esdtInstance.Creator.Value) > 0 {
+	if !esdtInstance.Creator.Unspecified && esdtInstance.Creator.Original != nil {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
 	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
-	if !esdtInstance.Hash.Unspecified && len(esdtInstance.Hash.Value) > 0 {
+	if !esdtInstance.Hash.Unspecified && esdtInstance.Hash.Original != nil {
 		targetOj.Put("hash", checkBytesToOJ(esdtInstance.Hash))
 	}
-	if !esdtInstance.Uri.Unspecified && len(esdtInstance.Uri.Value) > 0 {
+	if !esdtInstance.Uri.Unspecified && esdtInstance.Uri.Original != nil {
 		targetOj.Put("uri", checkBytesToOJ(esdtInstance.Uri))
 	}
-	if !esdtInstance.Attributes.Unspecified && len(esdtInstance.Attributes.Value) > 0 {
+	if !esdtInstance.Attributes.Unspecified && esdtInstance.Attributes.Original != nil {
 		targetOj.Put("attributes", checkBytesToOJ(esdtInstance.Attributes))
 	}
 }
-- 
2.43.0


From 26408919489c420ed396ce758b313d878896cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 38/48] fix: write tokens in short form only when they have
 nothing but a balance

---
 mandos-go/json/write/writeESDT.go      | 7 ++++++-
 mandos-go/json/write/writeESDTCheck.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/write/writeESDT.go b/mandos-go/json/write/writeESDT.go
index 76c609b..9722ae9 100644
--- a/mandos-go/json/write/writeESDT.go
+++ b/mandos-go/json/write/writeESDT.go
@@ -105,5 +105,10 @@ func isCompactESDT(esdtItem *mj.ESDTData) bool {
 	if len(esdtItem.Frozen.Original) > 0 {
 		return false
 	}
-	return true
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
+	fields := oj.NewMap()
+	appendESDTInstanceToOJ(esdtItem.Instances[0], fields)
+	return fields.Size() == 1 && fields.OrderedKV[0].Key == "balance"
 }
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index 609a54d..f71e358 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -94,5 +94,10 @@ func isCompactCheckESDT(esdtItem *mj.CheckESDTData) bool {
 	if len(esdtItem.Frozen.Original) > 0 {
 		return false
 	}
-	return true
+	if len(esdtItem.LastNonce.Original) > 0 {
+		return false
+	}
+	fields := oj.NewMap()
+	appendCheckESDTInstanceToOJ(esdtItem.Instances[0], fields)
+	return fields.Size() == 1 && fields.OrderedKV[0].Key == "balance"
 }
-- 
2.43.0


From fc47f85a367135ec08169e07acd0d5955a9fc27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 39/48] fix: write the shard of accounts and that more tokens
 are allowed

---
 mandos-go/json/write/writeAccount.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/write/writeAccount.go b/mandos-go/json/write/writeAccount.go
index 3360263..1c1a91a 100644
--- a/mandos-go/json/write/writeAccount.go
+++ b/mandos-go/json/write/writeAccount.go
@@ -13,6 +13,9 @@ func AccountsToOJ(accounts []*mj.Account) oj.OJsonObject {
 		if len(account.Comment) > 0 {
 			acctOJ.Put("comment", stringToOJ(account.Comment))
 		}
+		if len(account.Shard.Original) > 0 {
+			acctOJ.Put("shard", uint64ToOJ(account.Shard))
+		}
 		acctOJ.Put("nonce", uint64ToOJ(account.Nonce))
 		acctOJ.Put("balance", bigIntToOJ(account.Balance))
 		if len(account.ESDTData) > 0 {
@@ -56,7 +59,7 @@ func checkAccountsToOJ(checkAccounts *mj.CheckAccounts) oj.OJsonObject {
 		if checkAccount.IgnoreESDT {
 			acctOJ.Put("esdt", stringToOJ("*"))
 		} else {
-			if len(checkAccount.CheckESDTData) > 0 {
+			if len(checkAccount.CheckESDTData) > 0 || checkAccount.MoreESDTTokensAllowed {
 				acctOJ.Put("esdt", checkESDTDataToOJ(
 					checkAccount.CheckESDTData, checkAccount.MoreESDTTokensAllowed))
 			}
-- 
2.43.0


From 7a2dadca2776d6b63d810b396e90b91b777c7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 40/48] fix: log expectations that leave fields out can be
 written

---
 mandos-go/json/parse/parseLogs.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mandos-go/json/parse/parseLogs.go b/mandos-go/json/parse/parseLogs.go
index 24dd80b..6a311d2 100644
--- a/mandos-go/json/parse/parseLogs.go
+++ b/mandos-go/json/parse/parseLogs.go
@@ -20,7 +20,11 @@ func (p *Parser) processLogList(logsRaw oj.OJsonObject) ([]*mj.LogEntry, error)
 		if !isMap {
 			return nil, errors.New("unmarshalled log entry is not a map")
 		}
-		logEntry := mj.LogEntry{}
+		logEntry := mj.LogEntry{
+			Address:    mj.JSONCheckBytesUnspecified(),
+			Identifier: mj.JSONCheckBytesUnspecified(),
+			Data:       mj.JSONCheckBytesUnspecified(),
+		}
 		for _, kvp := range logMap.OrderedKV {
 			switch kvp.Key {
 			case "address":
-- 
2.43.0


From dfd4b5c2e0263349793bf400a4c7a1dd9455b8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 41/48] fix: transaction steps without transaction, or with it
 last, do not panic

---
 mandos-go/json/parse/parseScenario.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mandos-go/json/parse/parseScenario.go b/mandos-go/json/parse/parseScenario.go
index 36a5901..738f47b 100644
--- a/mandos-go/json/parse/parseScenario.go
+++ b/mandos-go/json/parse/parseScenario.go
@@ -260,8 +260,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 				return nil, fmt.Errorf("cannot parse tx step transaction: %w", err)
 			}
 		case "expect":
-			if !step.Tx.Type.IsSmartContractTx() {
-				return nil, fmt.Errorf("no expected result allowed for step of type %s", step.StepTypeName())
+			if !txType.IsSmartContractTx() {
+				return nil, errors.New("no expected result allowed for steps that do not involve smart contracts")
 			}
 			step.ExpectedResult, err = p.processTxExpectedResult(kvp.Value)
 			if err != nil {
@@ -271,5 +271,8 @@ func (p *Parser) parseTxStep(txType mj.TransactionType, stepMap *oj.OJsonMap) (*
 			return nil, fmt.Errorf("invalid tx step field: %s", kvp.Key)
 		}
 	}
+	if step.Tx == nil {
+		return nil, errors.New("missing transaction in tx step")
+	}
 	return step, nil
 }
-- 
2.43.0


From 19f0b4e6f46468a471e8f9b6abf9b60a0c371dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 42/48] fix: compare the expected owner of accounts

---
 arwenmandos/stepCheckAccounts.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index b637ecd..093e9cd 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -73,6 +73,17 @@ func (ae *ArwenTestExecutor) checkAccounts(checkAccounts *mj.CheckAccounts) erro
 					er.StrHint))
 		}
 
+		// unspecified owners are ignored
+		if !expectedAcct.Owner.IsUnspecified() &&
+			!expectedAcct.Owner.Check(matchingAcct.OwnerAddress) {
+			return fmt.Errorf("bad account owner. Account: %s. Want: %s. Have: \"%s\"",
+				expectedAcct.Address.Original,
+				oj.JSONString(expectedAcct.Owner.Original),
+				ae.exprReconstructor.Reconstruct(
+					matchingAcct.OwnerAddress,
+					er.AddressHint))
+		}
+
 		if !expectedAcct.Code.Check(matchingAcct.Code) {
 			return fmt.Errorf("bad account code. Account: %s. Want: %s. Have: \"%s\"",
 				expectedAcct.Address.Original,
-- 
2.43.0


From a7bffaed4ccd1a87503d0e25b8bd0dd19f607154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 43/48] fix: more tokens than expected are accepted where the
 scenario allows them

---
 arwenmandos/stepCheckAccounts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 093e9cd..2e24ba6 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -192,6 +192,9 @@ func (ae *ArwenTestExecutor) checkAccountESDT(expectedAcct *mj.CheckAccount, mat
 		expectedToken := expectedTokens[tokenName]
 		accountToken := accountTokens[tokenName]
 		if expectedToken == nil {
+			if expectedAcct.MoreESDTTokensAllowed {
+				continue
+			}
 			expectedToken = &mj.CheckESDTData{
 				TokenIdentifier: mj.JSONBytesFromString{
 					Value:    []byte(tokenName),
-- 
2.43.0


From 1ffb1fea7c440ecf036deb550e0777526401f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:02 +0000
Subject: [PATCH 44/48] fix: an explicitly empty expectation of royalties is
 not dropped

---
 mandos-go/json/parse/parseESDTCheck.go | 9 +++------
 mandos-go/json/write/writeESDTCheck.go | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/mandos-go/json/parse/parseESDTCheck.go b/mandos-go/json/parse/parseESDTCheck.go
index d920e96..f6ccf7a 100644
--- a/mandos-go/json/parse/parseESDTCheck.go
+++ b/mandos-go/json/parse/parseESDTCheck.go
@@ -22,12 +22,9 @@ func (p *Parser) processCheckESDTData(
 		if err != nil {
 			return nil, fmt.Errorf("invalid ESDT balance: %w", err)
 		}
-		esdtData.Instances = []*mj.CheckESDTInstance{
-			{
-				Nonce:   mj.JSONCheckUint64{Value: 0, Original: ""},
-				Balance: balance,
-			},
-		}
+		instance := mj.NewCheckESDTInstance()
+		instance.Balance = balance
+		esdtData.Instances = []*mj.CheckESDTInstance{instance}
 		return &esdtData, nil
 	case *oj.OJsonMap:
 		return p.processCheckESDTDataMap(tokenName, data)
diff --git a/mandos-go/json/write/writeESDTCheck.go b/mandos-go/json/write/writeESDTCheck.go
index f71e358..626b777 100644
--- a/mandos-go/json/write/writeESDTCheck.go
+++ b/mandos-go/json/write/writeESDTCheck.go
@@ -67,7 +67,7 @@ func appendCheckESDTInstanceToOJ(esdtInstance *mj.CheckESDTInstance, targetOj *o
 	if !esdtInstance.Creator.Unspecified && esdtInstance.Creator.Original != nil {
 		targetOj.Put("creator", checkBytesToOJ(esdtInstance.Creator))
 	}
-	if !esdtInstance.Royalties.Unspecified && len(esdtInstance.Royalties.Original) > 0 {
+	if !esdtInstance.Royalties.Unspecified {
 		targetOj.Put("royalties", checkUint64ToOJ(esdtInstance.Royalties))
 	}
 	if !esdtInstance.Hash.Unspecified && esdtInstance.Hash.Original != nil {
-- 
2.43.0


From 11b3a3f0f8b2698d0f68db838902b2078582daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 45/48] fix: compare the expected frozen state of tokens

---
 arwenmandos/stepCheckAccounts.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 2e24ba6..3fdd73c 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -11,6 +11,7 @@ import (
 	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
 	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
 	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
+	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
 	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
 )
 
@@ -306,6 +307,15 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 				expectedInstance.Balance.Original,
 				accountInstance.Value))
 		}
+		isFrozen := builtInFunctions.ESDTUserMetadataFromBytes(accountInstance.Properties).Frozen
+		if len(expectedToken.Frozen.Original) > 0 && !expectedToken.Frozen.CheckBool(isFrozen) {
+			errors = append(errors, fmt.Errorf(
+				"for token: %s, nonce: %d: Bad frozen state. Want: \"%s\". Have: %v",
+				tokenName,
+				nonce,
+				expectedToken.Frozen.Original,
+				isFrozen))
+		}
 		if !expectedInstance.Creator.IsUnspecified() &&
 			!expectedInstance.Creator.Check(accountInstance.TokenMetaData.Creator) {
 			errors = append(errors, fmt.Errorf(
-- 
2.43.0


From efd658aad79686ccbf648f5aeaafe1dacc244470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:29 +0000
Subject: [PATCH 46/48] fix: the last nonce of a token without instances is not
 dropped

---
 arwenmandos/util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/arwenmandos/util.go b/arwenmandos/util.go
index f024805..fb97585 100644
--- a/arwenmandos/util.go
+++ b/arwenmandos/util.go
@@ -70,12 +70,12 @@ func convertAccount(testAcct *mj.Account, world *worldmock.MockWorld) (*worldmoc
 			if err != nil {
 				return nil, err
 			}
-			err = account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
-			if err != nil {
-				return nil, err
-			}
 		}
-		err := account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
+		err := account.SetLastNonce(tokenName, mandosESDTData.LastNonce.Value)
+		if err != nil {
+			return nil, err
+		}
+		err = account.SetTokenRolesAsStrings(tokenName, mandosESDTData.Roles)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8f97970f5b06f5f7afd262240796878a16fbe182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 47/48] fix: an unexpected token instance is reported, not a
 panic

---
 arwenmandos/stepCheckAccounts.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arwenmandos/stepCheckAccounts.go b/arwenmandos/stepCheckAccounts.go
index 3fdd73c..1ec7992 100644
--- a/arwenmandos/stepCheckAccounts.go
+++ b/arwenmandos/stepCheckAccounts.go
@@ -285,10 +285,9 @@ func (ae *ArwenTestExecutor) checkTokenInstances(
 		accountInstance := accountInstances[nonce]
 
 		if expectedInstance == nil {
-			expectedInstance = &mj.CheckESDTInstance{
-				Nonce:   mj.JSONCheckUint64{Value: nonce, Original: ""},
-				Balance: mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""},
-			}
+			expectedInstance = mj.NewCheckESDTInstance()
+			expectedInstance.Nonce = mj.JSONCheckUint64{Value: nonce, Original: ""}
+			expectedInstance.Balance = mj.JSONCheckBigInt{Value: big.NewInt(0), Original: ""}
 		} else if accountInstance == nil {
 			accountInstance = &esdt.ESDigitalToken{
 				Value: big.NewInt(0),
-- 
2.43.0


From 49e0460b0eda1d1def8dd5bd90fa4b18249eaaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:46 +0000
Subject: [PATCH 48/48] fix: a result of a transaction that does not add up
 changes nothing

---
 arwenmandos/stepRunTx.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/arwenmandos/stepRunTx.go b/arwenmandos/stepRunTx.go
index 46a9f0c..12c5c45 100644
--- a/arwenmandos/stepRunTx.go
+++ b/arwenmandos/stepRunTx.go
@@ -43,12 +43,10 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 
 		gasForExecution = tx.GasLimit.Value
 		if tx.ESDTValue != nil {
-			gasRemaining, err := ae.directESDTTransferFromTx(tx)
+			gasForExecution, err = ae.directESDTTransferFromTx(tx)
 			if err != nil {
 				return nil, err
 			}
-
-			gasForExecution = gasRemaining
 		}
 	}
 
@@ -91,7 +89,7 @@ func (ae *ArwenTestExecutor) executeTx(txIndex string, tx *mj.Transaction) (*vmc
 	}
 
 	if output.ReturnCode == vmcommon.Ok {
-		err := ae.updateStateAfterTx(tx, output)
+		err = ae.updateStateAfterTx(tx, output)
 		if err != nil {
 			return nil, err
 		}
@@ -249,18 +247,6 @@ func (ae *ArwenTestExecutor) updateStateAfterTx(
 	tx *mj.Transaction,
 	output *vmcommon.VMOutput) error {
 
-	// subtract call value from sender (this is not reflected in the delta)
-	// except for validatorReward, there is no sender there
-	if tx.Type.HasSender() {
-		_ = ae.World.UpdateBalanceWithDelta(tx.From.Value, big.NewInt(0).Neg(tx.Value.Value))
-	}
-
-	// update accounts based on deltas
-	updErr := ae.World.UpdateAccounts(output.OutputAccounts, output.DeletedAccounts)
-	if updErr != nil {
-		return updErr
-	}
-
 	// sum of all balance deltas should equal call value (unless we got an error)
 	// (unless it is validatorReward, when funds just pop into existence)
 	if tx.Type.HasSender() {
@@ -274,5 +260,17 @@ func (ae *ArwenTestExecutor) updateStateAfterTx(
 		}
 	}
 
+	// subtract call value from sender (this is not reflected in the delta)
+	// except for validatorReward, there is no sender there
+	if tx.Type.HasSender() {
+		_ = ae.World.UpdateBalanceWithDelta(tx.From.Value, big.NewInt(0).Neg(tx.Value.Value))
+	}
+
+	// update accounts based on deltas
+	updErr := ae.World.UpdateAccounts(output.OutputAccounts, output.DeletedAccounts)
+	if updErr != nil {
+		return updErr
+	}
+
 	return nil
 }
-- 
2.43.0

