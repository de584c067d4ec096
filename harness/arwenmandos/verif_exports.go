package arwenmandos

import (
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmi "github.com/ElrondNetwork/elrond-vm-common"
)

// XCheckTxResults compares a result with what is expected (overlay only).
func (ae *ArwenTestExecutor) XCheckTxResults(expected *mj.TransactionResult, checkGas bool, output *vmi.VMOutput) error {
	return ae.checkTxResults("tx", expected, checkGas, output)
}

// XNewExecutor is a scenario executor over any machine (overlay only).
func XNewExecutor(world *worldmock.MockWorld, vm vmi.VMExecutionHandler) *ArwenTestExecutor {
	return &ArwenTestExecutor{World: world, vm: vm, checkGas: true}
}

// XDump converts an account to what a dump of the state shows (overlay only).
func (ae *ArwenTestExecutor) XDump(account *worldmock.Account) (*mj.Account, error) {
	return ae.convertMockAccountToMandosFormat(account)
}

// XConvert converts an account of a scenario (overlay only).
func XConvert(account *mj.Account, world *worldmock.MockWorld) (*worldmock.Account, error) {
	return convertAccount(account, world)
}
