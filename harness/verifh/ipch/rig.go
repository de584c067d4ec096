// Package ipch checks the pipe between the node and the machine process.
package ipch

import (
	"bytes"
	"errors"
	"math/big"
	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// hook is a node whose answers are given and whose questions are recorded.
type hook struct {
	*vmh.World
	b1, b2, b3 []byte
	n          uint64
	calls      int
	out        []byte
	num        uint64
	yes        bool
	err        error
	builtinIn  *vmcommon.ContractCallInput
	builtinOut *vmcommon.VMOutput
	names      vmcommon.FunctionNames
	state      map[string][]byte
	user       vmcommon.UserAccountHandler
	asked      vmcommon.UserAccountHandler
	token      *esdt.ESDigitalToken
	snap       int
}

func (h *hook) ask(b1, b2, b3 []byte, n uint64) {
	h.calls++
	h.b1, h.b2, h.b3, h.n = b1, b2, b3, n
}

func (h *hook) NewAddress(a []byte, n uint64, t []byte) ([]byte, error) {
	h.ask(a, t, nil, n)
	return h.out, h.err
}
func (h *hook) GetStorageData(a []byte, k []byte) ([]byte, error) {
	h.ask(a, k, nil, 0)
	return h.out, h.err
}
func (h *hook) GetBlockhash(n uint64) ([]byte, error) {
	h.ask(nil, nil, nil, n)
	return h.out, h.err
}
func (h *hook) LastNonce() uint64        { h.calls++; return h.num + 1 }
func (h *hook) LastRound() uint64        { h.calls++; return h.num + 2 }
func (h *hook) LastTimeStamp() uint64    { h.calls++; return h.num + 3 }
func (h *hook) LastRandomSeed() []byte   { h.calls++; return h.out }
func (h *hook) LastEpoch() uint32        { h.calls++; return uint32(h.num + 4) }
func (h *hook) GetStateRootHash() []byte { h.calls++; return append([]byte{1}, h.out...) }
func (h *hook) CurrentNonce() uint64     { h.calls++; return h.num + 5 }
func (h *hook) CurrentRound() uint64     { h.calls++; return h.num + 6 }
func (h *hook) CurrentTimeStamp() uint64 { h.calls++; return h.num + 7 }
func (h *hook) CurrentRandomSeed() []byte {
	h.calls++
	return append([]byte{2}, h.out...)
}
func (h *hook) CurrentEpoch() uint32 { h.calls++; return uint32(h.num + 8) }
func (h *hook) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	h.calls++
	h.builtinIn = in
	return h.builtinOut, h.err
}
func (h *hook) GetBuiltinFunctionNames() vmcommon.FunctionNames { h.calls++; return h.names }
func (h *hook) GetAllState(a []byte) (map[string][]byte, error) {
	h.ask(a, nil, nil, 0)
	return h.state, h.err
}
func (h *hook) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	h.ask(a, nil, nil, 0)
	return h.user, h.err
}
func (h *hook) GetCode(a vmcommon.UserAccountHandler) []byte {
	h.calls++
	h.asked = a
	return h.out
}
func (h *hook) GetShardOfAddress(a []byte) uint32   { h.ask(a, nil, nil, 0); return uint32(h.num) }
func (h *hook) IsSmartContract(a []byte) bool       { h.ask(a, nil, nil, 0); return h.yes }
func (h *hook) IsPayable(a []byte) (bool, error)    { h.ask(a, nil, nil, 0); return h.yes, h.err }
func (h *hook) SaveCompiledCode(a []byte, c []byte) { h.ask(a, c, nil, 0) }
func (h *hook) GetCompiledCode(a []byte) (bool, []byte) {
	h.ask(a, nil, nil, 0)
	return h.yes, h.out
}
func (h *hook) ClearCompiledCodes() { h.calls++ }
func (h *hook) GetESDTToken(a []byte, t []byte, n uint64) (*esdt.ESDigitalToken, error) {
	h.ask(a, t, nil, n)
	return h.token, h.err
}
func (h *hook) GetSnapshot() int { h.calls++; return h.snap }
func (h *hook) RevertToSnapshot(s int) error {
	h.ask(nil, nil, nil, uint64(int64(s)))
	return h.err
}

type wires struct {
	nodeIn, arwenOut *os.File // arwen -> node
	arwenIn, nodeOut *os.File // node -> arwen
}

func newWires() *wires {
	w := &wires{}
	var e1, e2 error
	w.nodeIn, w.arwenOut, e1 = os.Pipe()
	w.arwenIn, w.nodeOut, e2 = os.Pipe()
	if e1 != nil || e2 != nil {
		nd.Fail("pipes")
	}
	return w
}

func jsonM() marshaling.Marshalizer { return marshaling.CreateMarshalizer(marshaling.JSON) }

const loopTime = 3000

func newNode(w *wires, h vmcommon.BlockchainHook, m marshaling.Marshalizer) *nodepart.NodePart {
	part, err := nodepart.NewNodePart(w.nodeIn, w.nodeOut, h, nodepart.Config{MaxLoopTime: loopTime}, m)
	if err != nil {
		nd.Fail("the node part starts")
	}
	return part
}

// dialogue lets f use the gateway in the course of one contract call.
func dialogue(h *hook, f func(g *arwenpart.BlockchainHookGateway)) {
	w := newWires()
	node := newNode(w, h, jsonM())
	done := false
	go func() {
		m := arwenpart.NewArwenMessenger(w.arwenIn, w.arwenOut, jsonM())
		g := arwenpart.NewBlockchainHookGateway(m)
		_, err := m.ReceiveNodeRequest()
		if err != nil {
			return
		}
		f(g)
		done = true
		_ = m.SendContractResponse(common.NewMessageContractResponse(&vmcommon.VMOutput{GasRemaining: 77}, nil))
	}()
	resp, err := node.StartLoop(common.NewMessageContractCallRequest(vmh.Input(vmh.Alice, "f", 1000)))
	nd.Assert(err == nil, "the dialogue ends without a critical error")
	if err != nil {
		return
	}
	nd.Assert(done, "the contract response comes last")
	cr, ok := resp.(*common.MessageContractResponse)
	nd.Assert(ok && resp.GetKind() == common.ContractResponse, "the node ends with the contract response")
	if ok {
		nd.Assert(cr.SerializableVMOutput.ConvertToVMOutput().GasRemaining == 77, "the contract response is the one sent")
	}
	nd.Reach("end")
}

// ascii is a text of ASCII characters.
func ascii(name string, n int) string {
	s := nd.String(name, n)
	bad := byte(0)
	for i := 0; i < len(s); i++ {
		bad |= s[i] & 0x80
	}
	nd.Assume(bad == 0)
	return s
}

// failure is nil or an error with any text.
func failure() error {
	if nd.Bool("fails") {
		return errors.New(ascii("error", 2))
	}
	return nil
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

func sameBig(a, b *big.Int) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Cmp(b) == 0
}

func sameList(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}
