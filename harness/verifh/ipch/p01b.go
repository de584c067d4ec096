package ipch

import (
	"encoding/binary"

	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// pair is the same world twice: with the machine in the process, and with the
// machine behind the pipe.
type pair struct {
	direct, remote *vmh.Env
	node           *nodepart.NodePart
	ended          chan bool
	w              *wires
}

func newPair(o vmh.Opt, setup func(e *vmh.Env)) *pair {
	p := &pair{direct: vmh.NewEnv(o), remote: vmh.NewEnv(o), w: newWires()}
	setup(p.direct)
	setup(p.remote)
	part, err := arwenpart.NewArwenPart("v7", p.w.arwenIn, p.w.arwenOut, vmh.Params(p.remote.W, o), jsonM())
	if err != nil {
		nd.Fail("the machine's part starts")
		return nil
	}
	vmh.Mount(p.remote.W, part.VMHost.(arwen.VMHost))
	p.node = newNode(p.w, p.remote.W, jsonM())
	go func() { _ = part.StartLoop() }()
	return p
}

func (p *pair) ask(req common.MessageHandler) common.MessageHandler {
	resp, err := p.node.StartLoop(req)
	nd.Assert(err == nil, "the dialogue ends without a critical error")
	return resp
}

// same compares the two machines' results.
func (p *pair) same(out *vmcommon.VMOutput, err error, resp common.MessageHandler) {
	r, ok := resp.(*common.MessageContractResponse)
	if !ok {
		nd.Fail("the response is a contract response")
		return
	}
	nd.Assert(sameErr(err, r.GetError()), "the same error on both sides of the pipe")
	if err == nil {
		vmh.SameOutput(out, r.SerializableVMOutput.ConvertToVMOutput(), "through the pipe")
	}
	nd.Reach("compared")
}

func (p *pair) call(mk func() *vmcommon.ContractCallInput) {
	out, err := p.direct.H.RunSmartContractCall(mk())
	p.same(out, err, p.ask(common.NewMessageContractCallRequest(mk())))
}

// P01_Call runs a contract on both sides of the pipe.
func P01_Call() {
	way := nd.Choice("way", 6)
	key, val := nd.Bytes("key", 1), nd.BytesUpTo("val", 1)
	amount := nd.Big("amount", 16)
	gas := nd.U64("gas")
	nd.Assume(gas <= 5000)
	txt := ascii("text", 1)
	p := newPair(vmh.Opt{}, func(e *vmh.Env) {
		e.AccA.Put([]byte("old"), []byte{5})
		e.A.Funcs["f"] = func(in *vmh.Inst) {
			switch way {
			case 0:
				in.Store(key, val)
				in.Store([]byte("old"), nil)
				in.Log([][]byte{key, val}, val)
				in.Finish(val)
			case 1:
				in.Transfer(vmh.User, vmh.Bytes32(amount), val)
			case 2:
				in.Signal([]byte(txt))
			case 3:
				in.Nested(vmh.Dest, 500, vmh.Bob, vmh.Zero32(), "g", val)
				in.Finish(key)
			case 4:
				in.Burn(gas)
			case 5:
				in.Async(vmh.Far, vmh.Bytes32(amount), []byte("g@01"))
			}
		}
		e.B.Funcs["g"] = func(in *vmh.Inst) {
			in.Store(key, val)
			in.Finish([]byte("r"))
		}
	})
	if p == nil {
		return
	}
	p.call(func() *vmcommon.ContractCallInput { return vmh.Input(vmh.Alice, "f", gas, key) })
}

// P01_CallTwice: a dialogue leaves nothing for the next one.
func P01_CallTwice() {
	val := nd.Bytes("val", 1)
	first, second := nd.Choice("first", 4), nd.Choice("second", 4)
	fns := []string{"f", "g", "absent", "panic"}
	p := newPair(vmh.Opt{Warm: nd.Bool("warm")}, func(e *vmh.Env) {
		e.A.Funcs["f"] = func(in *vmh.Inst) {
			in.Store([]byte("k"), val)
			in.Finish(val)
		}
		e.A.Funcs["g"] = func(in *vmh.Inst) {
			v, _ := in.Load([]byte("k"))
			in.Finish(v)
			in.Trap()
		}
		e.A.Funcs["panic"] = func(in *vmh.Inst) { panic("broken") }
	})
	if p == nil {
		return
	}
	p.call(func() *vmcommon.ContractCallInput { return vmh.Input(vmh.Alice, fns[first], 2000) })
	p.call(func() *vmcommon.ContractCallInput { return vmh.Input(vmh.Alice, fns[second], 2000) })
}

// P01_Deploy deploys a contract on both sides of the pipe.
func P01_Deploy() {
	arg := nd.Bytes("arg", 1)
	meta := nd.Bytes("meta", 2)
	gas := nd.U64("gas")
	nd.Assume(gas <= 3000)
	p := newPair(vmh.Opt{}, func(e *vmh.Env) {
		e.W.Contracts = append(e.W.Contracts, &vmh.Contract{Code: []byte("NNNN"), Funcs: map[string]func(*vmh.Inst){
			"init": func(in *vmh.Inst) { in.Store([]byte("i"), arg) },
		}})
	})
	if p == nil {
		return
	}
	mk := func() *vmcommon.ContractCreateInput { return vmh.CreateInput([]byte("NNNN"), meta, gas, arg) }
	out, err := p.direct.H.RunSmartContractCreate(mk())
	p.same(out, err, p.ask(common.NewMessageContractDeployRequest(mk())))
}

// P01_Builtin: a contract uses a built-in function of the node.
func P01_Builtin() {
	v := nd.U16("v")
	p := newPair(vmh.Opt{}, func(e *vmh.Env) {
		e.WithBuiltin()
		e.A.Funcs["f"] = func(in *vmh.Inst) {
			in.Nested(vmh.Dest, 500, vmh.Bob, vmh.Zero32(), vmh.Claim, []byte{byte(v >> 8), byte(v)})
			in.Finish([]byte{1})
		}
	})
	if p == nil {
		return
	}
	p.call(func() *vmcommon.ContractCallInput { return vmh.Input(vmh.Alice, "f", 2000) })
}

// P01_GasSchedule: a schedule sent over the pipe is the one used from then on.
func P01_GasSchedule() {
	store := nd.U64("store")
	nd.Assume(store <= 300)
	p := newPair(vmh.Opt{}, func(e *vmh.Env) {
		e.A.Funcs["f"] = func(in *vmh.Inst) { in.Store([]byte("k"), []byte("value")) }
	})
	if p == nil {
		return
	}
	mk := func() config.GasScheduleMap {
		g := config.MakeGasMap(1, 100)
		g["BaseOperationCost"]["StorePerByte"] = store
		return g
	}
	p.direct.H.GasScheduleChange(mk())
	resp := p.ask(common.NewMessageGasScheduleChangeRequest(mk()))
	nd.Assert(resp != nil && resp.GetKind() == common.GasScheduleChangeResponse, "the change of the schedule is confirmed")
	if resp == nil {
		return
	}
	p.call(func() *vmcommon.ContractCallInput { return vmh.Input(vmh.Alice, "f", 2000) })
}

// P01_Version: the other requests.
func P01_Version() {
	p := newPair(vmh.Opt{}, func(e *vmh.Env) {})
	if p == nil {
		return
	}
	r, ok := p.ask(common.NewMessageVersionRequest()).(*common.MessageVersionResponse)
	nd.Assert(ok && r.Version == "v7", "the version is the machine's")
	d := p.ask(common.NewMessageDiagnoseWaitRequest(1))
	nd.Assert(d != nil && d.GetKind() == common.DiagnoseWaitResponse, "the wait is confirmed")
	nd.Assert(p.node.SendStopSignal() == nil, "the stop signal is sent")
	p.node.Messenger.ResetDialogue()
	_, err := p.node.StartLoop(common.NewMessageVersionRequest())
	nd.Assert(err != nil, "a stopped machine is an error")
	nd.Reach("end")
}

// P01_Silent: a machine that does not answer, or ends in the middle.
func P01_Silent() {
	w := newWires()
	part, err := nodepart.NewNodePart(w.nodeIn, w.nodeOut, vmh.NewWorld(), nodepart.Config{MaxLoopTime: 30}, jsonM())
	nd.Assert(err == nil, "the node part starts")
	closes := nd.Bool("closes")
	if closes {
		_ = w.arwenOut.Close()
	}
	resp, err := part.StartLoop(common.NewMessageVersionRequest())
	nd.Assert(err != nil && resp == nil, "a machine that does not answer is an error")
	nd.Reach("end")
}

// P01_Turn: a message out of turn is refused.
func P01_Turn() {
	w := newWires()
	node := newNode(w, vmh.NewWorld(), jsonM())
	nonce := nd.U32("nonce")
	go func() {
		m := arwenpart.NewArwenMessenger(w.arwenIn, w.arwenOut, jsonM())
		if _, err := m.ReceiveNodeRequest(); err != nil {
			return
		}
		m.Nonce = nonce
		_ = m.SendContractResponse(common.NewMessageVersionResponse("v"))
	}()
	resp, err := node.StartLoop(common.NewMessageVersionRequest())
	nd.Assert((err == nil) == (nonce == 1), "the answer is accepted exactly when it is next in the dialogue")
	nd.Assert((resp != nil) == (err == nil), "a refused message is not delivered")
	nd.Reach("end")
}

// P01_Kind: the node never takes a message of another kind for an answer.
func P01_Kind() {
	w := newWires()
	h := &hook{World: vmh.NewWorld()}
	node := newNode(w, h, jsonM())
	kind := common.MessageKind(nd.U32("kind"))
	go func() {
		m := arwenpart.NewArwenMessenger(w.arwenIn, w.arwenOut, jsonM())
		if _, err := m.ReceiveNodeRequest(); err != nil {
			return
		}
		msg := &common.Message{}
		msg.SetKind(kind)
		_ = m.SendContractResponse(msg)
		_ = w.arwenOut.Close()
	}()
	resp, err := node.StartLoop(common.NewMessageVersionRequest())
	switch kind {
	case common.ContractResponse, common.VersionResponse, common.DiagnoseWaitRequest, common.DiagnoseWaitResponse, common.GasScheduleChangeResponse:
		nd.Assert(err == nil && resp.GetKind() == kind, "an answer is delivered as what it is")
		nd.Reach("answer")
	default:
		nd.Assert(err != nil && resp == nil, "what is no answer is not delivered as one")
		nd.Reach("refused")
	}
}

// P01_HookAnswerKind: the machine never takes a message of another kind for
// the node's answer.
func P01_HookAnswerKind() {
	w := newWires()
	kind := common.MessageKind(nd.U32("kind"))
	which := nd.Choice("which", 9)
	go func() {
		m := nodepart.NewNodeMessenger(w.nodeIn, w.nodeOut, jsonM())
		if _, _, err := m.ReceiveHookCallRequestOrContractResponse(loopTime); err != nil {
			return
		}
		msg := &common.Message{}
		msg.SetKind(kind)
		_ = m.SendHookCallResponse(msg)
	}()
	g := arwenpart.NewBlockchainHookGateway(arwenpart.NewArwenMessenger(w.arwenIn, w.arwenOut, jsonM()))
	want, ok := question(g, which)
	// An answer without its result is none where a result is always there.
	whole := which != 6 && which != 8
	nd.Assert(ok == (kind == want && whole), "only the answer to the question is accepted")
	nd.Reach("end")
}

// question puts a question to the node and says which answer is wanted and
// whether one was accepted (an error or nothing otherwise).
func question(g *arwenpart.BlockchainHookGateway, which int) (common.MessageKind, bool) {
	a := []byte{1}
	var err error
	switch which {
	case 0:
		_, err = g.GetStorageData(a, a)
		return common.BlockchainGetStorageDataResponse, err == nil
	case 1:
		_, err = g.IsPayable(a)
		return common.BlockchainIsPayableResponse, err == nil
	case 2:
		return common.BlockchainRevertToSnapshotResponse, g.RevertToSnapshot(1) == nil
	case 3:
		_, err = g.GetUserAccount(a)
		return common.BlockchainGetUserAccountResponse, err == nil
	case 4:
		_, err = g.NewAddress(a, 1, a)
		return common.BlockchainNewAddressResponse, err == nil
	case 5:
		_, err = g.GetBlockhash(1)
		return common.BlockchainGetBlockhashResponse, err == nil
	case 6:
		_, err = g.GetAllState(a)
		return common.BlockchainGetAllStateResponse, err == nil
	case 7:
		_, err = g.GetESDTToken(a, a, 1)
		return common.BlockchainGetESDTTokenResponse, err == nil
	default:
		_, err = g.ProcessBuiltInFunction(&vmcommon.ContractCallInput{RecipientAddr: a, Function: "f"})
		return common.BlockchainProcessBuiltInFunctionResponse, err == nil
	}
}

// P01_HookNoAnswer: a question without an error gets nothing, and never a
// crash, when the node's answer says nothing.
func P01_HookNoAnswer() {
	w := newWires()
	kind := common.MessageKind(nd.U32("kind"))
	which := nd.Choice("which", 18)
	go func() {
		m := nodepart.NewNodeMessenger(w.nodeIn, w.nodeOut, jsonM())
		if _, _, err := m.ReceiveHookCallRequestOrContractResponse(loopTime); err != nil {
			return
		}
		msg := &common.Message{}
		msg.SetKind(kind)
		_ = m.SendHookCallResponse(msg)
	}()
	g := arwenpart.NewBlockchainHookGateway(arwenpart.NewArwenMessenger(w.arwenIn, w.arwenOut, jsonM()))
	nothing := true
	switch which {
	case 0:
		nothing = g.LastNonce() == 0
	case 1:
		nothing = g.LastRound() == 0
	case 2:
		nothing = g.LastTimeStamp() == 0
	case 3:
		nothing = g.LastRandomSeed() == nil
	case 4:
		nothing = g.LastEpoch() == 0
	case 5:
		nothing = g.GetStateRootHash() == nil
	case 6:
		nothing = g.CurrentNonce() == 0
	case 7:
		nothing = g.CurrentRound() == 0
	case 8:
		nothing = g.CurrentTimeStamp() == 0
	case 9:
		nothing = g.CurrentRandomSeed() == nil
	case 10:
		nothing = g.CurrentEpoch() == 0
	case 11:
		nothing = len(g.GetBuiltinFunctionNames()) == 0
	case 12:
		nothing = g.GetCode(&common.Account{Nonce: 1}) == nil
	case 13:
		nothing = g.GetShardOfAddress([]byte{1}) == 0
	case 14:
		nothing = !g.IsSmartContract([]byte{1})
	case 15:
		found, code := g.GetCompiledCode([]byte{1})
		nothing = !found && code == nil
	case 16:
		nothing = g.GetSnapshot() == 0
	case 17:
		g.SaveCompiledCode([]byte{1}, []byte{2})
	}
	nd.Assert(nothing, "what is no answer is not taken for one")
	nd.Reach("end")
}

// P01_Messages: every kind of message is made as its own kind.
func P01_Messages() {
	kind := common.MessageKind(nd.U32("kind"))
	m := common.CreateMessage(kind)
	if kind < common.LastKind {
		nd.Assert(m.GetKind() == kind, "a message is created with its kind")
	} else {
		nd.Assert(m.GetKind() == common.UndefinedRequestOrResponse, "an unknown kind is undefined")
	}
	nd.Reach("end")
}

// raw is a marshalizer whose payload is any bytes.
type raw struct{}

func (raw) Marshal(data interface{}) ([]byte, error) {
	return []byte(data.(*common.MessageVersionResponse).Version), nil
}
func (raw) Unmarshal(data interface{}, b []byte) error {
	m := data.(*common.MessageVersionResponse)
	m.Version = string(b)
	return nil
}
func (raw) IsInterfaceNil() bool { return false }

var _ marshaling.Marshalizer = raw{}

// stream is what the sender writes for the texts.
func stream(texts ...string) []byte {
	r, w, err := os.Pipe()
	if err != nil {
		nd.Fail("pipe")
	}
	s := common.NewSender(w, raw{})
	total := 0
	for _, t := range texts {
		n, err := s.Send(common.NewMessageVersionResponse(t))
		nd.Assert(err == nil && n == len(t), "a message is sent with its length")
		total += 8 + len(t)
	}
	_ = s.Shutdown()
	var out []byte
	buf := make([]byte, 64)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil || n == 0 {
			break
		}
	}
	nd.Assert(len(out) == total, "the stream holds the messages and nothing else")
	return out
}

// replay writes a stream in pieces cut at the places given, up to end.
func replay(s []byte, end int, cuts ...int) *common.Receiver {
	r, w, err := os.Pipe()
	if err != nil {
		nd.Fail("pipe")
	}
	at := 0
	for _, c := range cuts {
		if c > end {
			c = end
		}
		if c > at {
			_, _ = w.Write(s[at:c])
			at = c
		}
	}
	if at < end {
		_, _ = w.Write(s[at:end])
	}
	_ = w.Close()
	return common.NewReceiver(r, raw{})
}

func received(r *common.Receiver, text string) {
	m, n, err := r.Receive(0)
	nd.Assert(err == nil, "a complete message is received")
	if err != nil {
		return
	}
	v, ok := m.(*common.MessageVersionResponse)
	nd.Assert(ok && m.GetKind() == common.VersionResponse, "it has the kind sent")
	if ok {
		nd.Assert(v.Version == text && n == len(text), "it has the payload sent")
	}
}

func refused(r *common.Receiver) {
	m, _, err := r.Receive(0)
	nd.Assert(err != nil && m == nil, "an incomplete message is an error")
}

// P01_Split: two messages in a stream cut anywhere.
func P01_Split() {
	t1, t2 := nd.StringUpTo("t1", 3), nd.StringUpTo("t2", 3)
	s := stream(t1, t2)
	a := nd.Choice("cut", len(s))
	b := nd.Choice("second cut", 2+2*nd.Tier()) * 3
	r := replay(s, len(s), a, a+b)
	received(r, t1)
	received(r, t2)
	refused(r)
	nd.Reach("end")
}

// P01_Truncated: a stream that ends early.
func P01_Truncated() {
	t1, t2 := nd.StringUpTo("t1", 2), nd.StringUpTo("t2", 2)
	s := stream(t1, t2)
	end := nd.Choice("end", len(s))
	r := replay(s, end, nd.Choice("cut", 12))
	if end >= 8+len(t1) {
		received(r, t1)
	}
	refused(r)
	nd.Reach("end")
}

// P01_Header: a header that is not the message's.
func P01_Header() {
	r, w, e1 := os.Pipe()
	r2, w2, e2 := os.Pipe()
	if e1 != nil || e2 != nil {
		nd.Fail("pipes")
	}
	s := common.NewSender(w, jsonM())
	msg := common.NewMessageVersionResponse(ascii("v", 1))
	_, err := s.Send(msg)
	nd.Assert(err == nil, "the message is sent")
	_ = s.Shutdown()
	var all []byte
	buf := make([]byte, 256)
	for {
		n, err := r.Read(buf)
		all = append(all, buf[:n]...)
		if err != nil || n == 0 {
			break
		}
	}
	length := binary.LittleEndian.Uint32(all[:4])
	kind := binary.LittleEndian.Uint32(all[4:8])
	nd.Assert(int(length) == len(all)-8 && common.MessageKind(kind) == common.VersionResponse, "the header gives length and kind")
	if nd.Bool("badkind") {
		kind = nd.U32("kind")
	} else {
		length += uint32(nd.Choice("longer", 7)) - 3
	}
	good := int(length) == len(all)-8 && common.MessageKind(kind) == common.VersionResponse
	binary.LittleEndian.PutUint32(all[:4], length)
	binary.LittleEndian.PutUint32(all[4:8], kind)
	_, _ = w2.Write(all)
	_ = w2.Close()
	m, _, err := common.NewReceiver(r2, jsonM()).Receive(0)
	nd.Assert((err == nil) == good, "a message is received exactly when its header is right")
	nd.Assert((m != nil) == (err == nil), "a refused message is not delivered")
	nd.Reach("end")
}

// P01_Text: names and messages with bytes that are no text.
func P01_Text() {
	fn, msg := nd.String("function", 2), nd.String("msg", 2)
	a := common.NewMessageContractCallRequest(&vmcommon.ContractCallInput{Function: fn})
	b := common.NewMessageContractResponse(&vmcommon.VMOutput{ReturnMessage: msg}, nil)
	x, y := through(a), through(b)
	if x == nil || y == nil {
		return
	}
	nd.Reach("received")
	nd.Assert(x.(*common.MessageContractCallRequest).CallInput.Function == fn && y.(*common.MessageContractResponse).SerializableVMOutput.ReturnMessage == msg, "names and messages arrive as the same bytes")
}

// through sends a message over a pipe.
func through(m common.MessageHandler) common.MessageHandler {
	r, w, err := os.Pipe()
	if err != nil {
		nd.Fail("pipe")
	}
	_, err = common.NewSender(w, jsonM()).Send(m)
	nd.Assert(err == nil, "the message is sent")
	got, _, err := common.NewReceiver(r, jsonM()).Receive(0)
	nd.Assert(err == nil, "the message is received")
	if err != nil {
		return nil
	}
	return got
}

// P01_Long: a message longer than a pipe holds.
func P01_Long() {
	b := make([]byte, 70000)
	at := []int{0, 1, 4095, 65535, 65536, 69999}
	val := nd.Bytes("val", len(at))
	for i, x := range at {
		b[x] = val[i]
	}
	r, w, err := os.Pipe()
	if err != nil {
		nd.Fail("pipe")
	}
	go func() {
		s := common.NewSender(w, raw{})
		n, err := s.Send(common.NewMessageVersionResponse(string(b)))
		nd.Assert(err == nil && n == len(b), "a message is sent with its length")
	}()
	rec := common.NewReceiver(r, raw{})
	m, n, err := rec.Receive(0)
	v, ok := m.(*common.MessageVersionResponse)
	nd.Assert(err == nil && ok && n == len(b) && len(v.Version) == len(b), "a long message is received whole")
	if err == nil && ok && len(v.Version) == len(b) {
		for i, x := range at {
			nd.Assert(v.Version[x] == val[i], "with the bytes sent")
		}
	}
	nd.Reach("end")
}

// P01_Request: the machine answers or refuses a request that says nothing
// but its kind, and stays alive for the next request.
func P01_Request() {
	kind := common.MessageKind(nd.U32("kind"))
	w := newWires()
	world := vmh.NewWorld()
	o := vmh.Opt{}
	part, err := arwenpart.NewArwenPart("v7", w.arwenIn, w.arwenOut, vmh.Params(world, o), jsonM())
	if err != nil {
		nd.Fail("the machine's part starts")
		return
	}
	vmh.Mount(world, part.VMHost.(arwen.VMHost))
	go func() { _ = part.StartLoop() }()
	m := nodepart.NewNodeMessenger(w.nodeIn, w.nodeOut, jsonM())
	msg := &common.Message{}
	msg.SetKind(kind)
	nd.Assert(m.SendContractRequest(msg) == nil, "the request is sent")
	answer, _, err := m.ReceiveHookCallRequestOrContractResponse(loopTime)
	if err != nil {
		nd.Reach("ended")
		return
	}
	switch kind {
	case common.ContractDeployRequest, common.ContractCallRequest:
		nd.Assert(answer.GetKind() == common.ContractResponse && answer.GetError() != nil, "a transaction without content fails")
		nd.Reach("failed")
	case common.GasScheduleChangeRequest:
		nd.Assert(answer.GetKind() == common.GasScheduleChangeResponse, "a gas schedule change is answered")
	case common.VersionRequest:
		nd.Assert(answer.GetKind() == common.VersionResponse, "a version request is answered")
	case common.DiagnoseWaitRequest:
		nd.Assert(answer.GetKind() == common.DiagnoseWaitResponse, "a diagnose request is answered")
	default:
		nd.Assert(answer.GetKind() == common.UndefinedRequestOrResponse, "what is no request is answered as such")
	}
	m.ResetDialogue()
	nd.Assert(m.SendContractRequest(common.NewMessageVersionRequest()) == nil, "the next request is sent")
	answer, _, err = m.ReceiveHookCallRequestOrContractResponse(loopTime)
	nd.Assert(err == nil && answer.GetKind() == common.VersionResponse, "the next request is answered")
	nd.Reach("alive")
}
