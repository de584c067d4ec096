// Package tokenh checks token transfers made by contracts.
package tokenh

import (
	"bytes"
	"errors"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

const gas = uint64(1) << 40
const part = int64(1) << 32

const (
	fungible = "ESDTTransfer"
	nft      = "ESDTNFTTransfer"
)

// asked is one request the ledger got.
type asked struct {
	fn             string
	from, to       []byte
	args           [][]byte
	gas            uint64
	callType       vmcommon.CallType
	value          *big.Int
	left           uint64
	journal        int
	runningAddress []byte
}

// ledger is the node's side of token transfers.
type ledger struct {
	calls []asked
	// used is the gas a transfer costs.
	used uint64
	// refuse: 0 accepts, 1 answers with an error, 2 with a return code.
	refuse int
	// logs makes the ledger report a log entry.
	logs bool
	// out is what the ledger reports as its output transfer.
	out func(in *vmcommon.ContractCallInput, left uint64) map[string]*vmcommon.OutputAccount
}

func newEnv(o vmh.Opt) (*vmh.Env, *ledger) {
	o.Builtins = []string{fungible, nft}
	e := vmh.NewEnv(o)
	l := &ledger{used: 10}
	e.W.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		a := asked{fn: in.Function, from: in.CallerAddr, to: in.RecipientAddr, gas: in.GasProvided, callType: in.CallType, value: in.CallValue, journal: e.W.Journal}
		for _, x := range in.Arguments {
			a.args = append(a.args, append([]byte{}, x...))
		}
		a.left = e.H.Metering().GasLeft()
		l.calls = append(l.calls, a)
		switch {
		case l.refuse == 1:
			return nil, errors.New("refused by the ledger")
		case l.refuse == 2:
			return &vmcommon.VMOutput{ReturnCode: vmcommon.UserError, ReturnMessage: "refused", GasRefund: big.NewInt(0)}, nil
		case in.GasProvided < l.used:
			return nil, errors.New("not enough gas")
		}
		left := in.GasProvided - l.used
		out := &vmcommon.VMOutput{GasRemaining: left, GasRefund: big.NewInt(0)}
		if l.logs {
			out.Logs = []*vmcommon.LogEntry{{Identifier: []byte(in.Function), Address: in.CallerAddr, Topics: [][]byte{{7}}, Data: []byte{8}}}
		}
		if l.out != nil {
			out.OutputAccounts = l.out(in, left)
			for _, acc := range out.OutputAccounts {
				for _, t := range acc.OutputTransfers {
					out.GasRemaining -= t.GasLimit
				}
			}
		}
		return out, nil
	}
	return e, l
}

// total is the gas of a result: used, forwarded and remaining.
func total(out *vmcommon.VMOutput) uint64 {
	t := out.GasRemaining
	for _, a := range out.OutputAccounts {
		t += a.GasUsed
		for _, x := range a.OutputTransfers {
			t += x.GasLimit + x.GasLocked
		}
	}
	return t
}

func sameArgs(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// exact asserts what the ledger was asked for.
func exact(a asked, isNft bool, from, to, token []byte, nonce uint64, value []byte) {
	if isNft {
		nd.Assert(a.fn == nft, "a non-fungible transfer asks for a non-fungible transfer")
		nd.Assert(bytes.Equal(a.from, from) && bytes.Equal(a.to, from), "the ledger is asked to take the token from the sender")
		nd.Assert(sameArgs(a.args, [][]byte{token, vmh.U64Bytes(nonce), value, to}), "the ledger is asked for exactly the token, nonce, amount and receiver given")
	} else {
		nd.Assert(a.fn == fungible, "a fungible transfer asks for a fungible transfer")
		nd.Assert(bytes.Equal(a.from, from) && bytes.Equal(a.to, to), "the ledger is asked to move tokens from the sender to the receiver")
		nd.Assert(sameArgs(a.args, [][]byte{token, value}), "the ledger is asked for exactly the token and amount given")
	}
	nd.Assert(a.value == nil || a.value.Sign() == 0, "a token transfer moves no other value")
	nd.Assert(a.gas <= a.left, "the ledger is not given more gas than is left")
}

func trim(b []byte) []byte {
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	return b
}

// T01_Ask makes one transfer to any kind of receiver.
func T01_Ask() {
	e, l := newEnv(vmh.Opt{})
	l.logs = true
	dest := [][]byte{vmh.Bob, vmh.User, vmh.Far}[nd.Choice("receiver", 3)]
	isNft := nd.Bool("non-fungible")
	nonce := int64(0)
	if isNft {
		nonce = nd.I64("nonce")
		nd.Assume(nonce != 0)
	}
	token := nd.Bytes("token", 2)
	v := make([]byte, 32)
	copy(v[31:], nd.Bytes("amount", 1))
	if nd.Bool("large amount") {
		v[0] = 0xff
	}
	l.refuse = nd.Choice("ledger", 3)
	fromLedger := []byte("what the ledger says")
	l.out = func(in *vmcommon.ContractCallInput, left uint64) map[string]*vmcommon.OutputAccount {
		if bytes.Equal(dest, vmh.Far) {
			return map[string]*vmcommon.OutputAccount{string(dest): {Address: dest, BalanceDelta: big.NewInt(0), OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(0), Data: fromLedger, SenderAddress: in.CallerAddr}}}}
		}
		return nil
	}
	arg := nd.Bytes("arg", 1)
	ran, rc := 0, int32(-3)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Log([][]byte{{1}}, []byte{2})
		rc = in.TokenExec(dest, token, v, isNft, nonce, part, "g", arg)
		if in.Stopped() {
			return
		}
		in.Finish([]byte{1})
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		ran++
		nd.Assert(sameArgs(e.H.Runtime().Arguments(), [][]byte{arg}), "the receiver gets the arguments given")
		nd.Assert(bytes.Equal(e.H.Runtime().GetVMInput().CallerAddr, vmh.Alice), "the receiver sees the sender as its caller")
		in.Finish([]byte{2})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(len(l.calls) == 1, "the ledger is asked exactly once")
	if len(l.calls) != 1 {
		return
	}
	exact(l.calls[0], isNft, vmh.Alice, dest, token, uint64(nonce), trim(v))
	if l.refuse != 0 {
		nd.Reach("refused")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a refused transfer fails the execution")
		nd.Assert(ran == 0, "the receiver does not run when the transfer is refused")
		for _, a := range out.OutputAccounts {
			nd.Assert(len(a.OutputTransfers) == 0, "a refused transfer is not reported")
		}
		nd.Assert(len(out.Logs) == 0, "a refused transfer leaves no log")
		return
	}
	nd.Reach("accepted")
	nd.Assert(rc == 0 && out.ReturnCode == vmcommon.Ok, "an accepted transfer succeeds")
	nd.Assert(e.W.Journal == 1, "an accepted transfer is kept by the ledger")
	if bytes.Equal(dest, vmh.Bob) {
		nd.Assert(ran == 1, "the function of a contract in the same shard runs once")
	}
	nd.Assert(total(out) == gas, "the gas of a token transfer adds up")
	for addr, a := range out.OutputAccounts {
		if addr != string(dest) {
			nd.Assert(len(a.OutputTransfers) == 0, "nothing is sent to anybody else")
		}
		nd.Assert(a.BalanceDelta == nil || a.BalanceDelta.Sign() == 0, "a token transfer moves no other value")
	}
	d := out.OutputAccounts[string(dest)]
	if d == nil || len(d.OutputTransfers) != 1 {
		nd.Fail("exactly one transfer to the receiver is reported")
		return
	}
	x := d.OutputTransfers[0]
	want := vmh.CallData(fungible, token, trim(v))
	if isNft {
		want = vmh.CallData(nft, token, vmh.U64Bytes(uint64(nonce)), trim(v), dest)
		if bytes.Equal(dest, vmh.Far) {
			want = fromLedger
		}
	}
	want = append(append([]byte{}, want...), vmh.CallData("", []byte("g"), arg)...)
	nd.Assert(bytes.Equal(x.Data, want), "the reported transfer names the token, amount, function and arguments")
	nd.Assert(bytes.Equal(x.SenderAddress, vmh.Alice), "the reported transfer names its sender")
	nd.Assert(x.Value.Sign() == 0 && x.GasLocked == 0, "the reported transfer carries no other value")
	if bytes.Equal(dest, vmh.Far) {
		nd.Assert(x.GasLimit == uint64(part)-l.used, "a transfer to another shard carries the gas given for it")
	} else {
		nd.Assert(x.GasLimit == 0, "a transfer in the same shard carries no gas")
	}
	nd.Assert(len(out.Logs) == 2, "the log entries of contract and ledger are reported once each")
	if len(out.Logs) == 2 {
		nd.Assert(bytes.Equal(out.Logs[1].Topics[0], []byte{7}), "log entries are reported in order")
	}
}

// T01_Gas makes a transfer with any gas limit, ledger cost and gas left.
func T01_Gas() {
	e, l := newEnv(vmh.Opt{})
	far := nd.Bool("far")
	dest := vmh.Bob
	if far {
		dest = vmh.Far
	}
	limit := nd.I64("limit")
	l.used = uint64(nd.U16("cost"))
	burn := uint64(nd.U16("burnt"))
	provided := uint64(nd.U32("provided"))
	nd.Assume(provided >= 1<<20)
	var before, after, given uint64
	rc := int32(-3)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Do(func() { before = e.H.Metering().GasLeft() })
		rc = in.TokenExec(dest, []byte("T"), vmh.Bytes32(big.NewInt(3)), false, 0, limit, "g")
		if in.Stopped() {
			return
		}
		in.Do(func() { after = e.H.Metering().GasLeft() })
	}
	ran := 0
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		ran++
		given = e.H.Metering().GasLeft()
		in.Burn(burn)
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", provided))
	vmh.NoCrash(out, err)
	if out.ReturnCode != vmcommon.Ok {
		nd.Reach("failed")
		nd.Assert(out.GasRemaining == 0, "a failed transaction returns no gas")
		return
	}
	nd.Assert(len(l.calls) == 1, "the ledger is asked exactly once")
	nd.Assert(total(out) == provided, "the gas of a token transfer adds up")
	if rc == 0 {
		nd.Reach("done")
		nd.Assert(before-after >= l.used, "the sender is charged what the ledger reports")
		if ran == 1 {
			nd.Assert(given+l.used <= before, "the receiver's function gets no more gas than is left")
			nd.Assert(limit < 0 || given+l.used <= uint64(limit), "the receiver's function gets no more gas than was asked for it")
		}
		if far {
			d := out.OutputAccounts[string(dest)]
			nd.Assert(d != nil && len(d.OutputTransfers) == 1, "exactly one transfer to the receiver is reported")
			nd.Assert(limit < 0 || d.OutputTransfers[0].GasLimit+l.used <= uint64(limit), "a transfer to another shard carries no more gas than was asked for it")
		}
	} else {
		nd.Reach("callee failed")
		nd.Assert(!far, "a transfer to another shard fails the execution or succeeds")
	}
}

// The ways a contract receives tokens.
const (
	byAPI = iota
	byNested
	byAsync
	byUser
	nWays
)

// give has Alice's f, or the user, send tokens to Bob's g.
func give(e *vmh.Env, l *ledger, way int, isNft bool, token []byte, nonce uint64, amount []byte, check func(in *vmh.Inst, rc int32)) (*vmcommon.VMOutput, error) {
	fn, args := fungible, [][]byte{token, trim(amount)}
	if isNft {
		fn, args = nft, [][]byte{token, vmh.U64Bytes(nonce), trim(amount), vmh.Bob}
	}
	full := append(append([][]byte{}, args...), []byte("g"))
	to := vmh.Bob
	if isNft {
		to = vmh.Alice
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		switch way {
		case byAPI:
			rc := in.TokenExec(vmh.Bob, token, amount, isNft, int64(nonce), part, "g")
			if !in.Stopped() && check != nil {
				check(in, rc)
			}
		case byNested:
			_, err := in.HostDest(to, big.NewInt(0), fn, uint64(part), full...)
			if check != nil {
				rc := int32(0)
				if err != nil {
					rc = 1
				}
				check(in, rc)
			}
		case byAsync:
			in.Async(to, vmh.Zero32(), vmh.CallData(fn, full...))
		}
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		rc := int32(0)
		if a := e.H.Runtime().Arguments(); len(a) > 0 && len(a[0]) > 0 && a[0][len(a[0])-1] != 0 {
			rc = 1
		}
		if check != nil {
			check(in, rc)
		}
	}
	if way == byNested || way == byAsync {
		l.out = func(in *vmcommon.ContractCallInput, left uint64) map[string]*vmcommon.OutputAccount {
			return map[string]*vmcommon.OutputAccount{string(vmh.Bob): {Address: vmh.Bob, BalanceDelta: big.NewInt(0), OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(0), Data: []byte("g"), GasLimit: left, SenderAddress: in.CallerAddr}}}}
		}
	}
	if way == byUser {
		in := vmh.Input(vmh.Bob, "g", gas)
		in.CallerAddr = vmh.User
		t := &vmcommon.ESDTTransfer{ESDTTokenName: token, ESDTValue: new(big.Int).SetBytes(amount), ESDTTokenNonce: nonce}
		if isNft {
			t.ESDTTokenType = uint32(vmcommon.NonFungible)
		}
		in.ESDTTransfers = []*vmcommon.ESDTTransfer{t}
		return e.Call(in)
	}
	return e.Call(vmh.Input(vmh.Alice, "f", gas))
}

// sees asserts what a contract learns of the tokens it received.
func sees(in *vmh.Inst, isNft bool, token []byte, nonce uint64, amount []byte) {
	in.Do(func() {
		c := in.Ctx()
		n := elrondapi.XGetESDTTokenName(c, 0)
		nd.Assert(int(n) == len(token) && bytes.Equal(in.Mem.B[:len(token)], token), "the receiver reads the name of the token")
		n = elrondapi.XGetESDTValue(c, 0)
		if len(trim(amount)) == 0 {
			nd.Assert(n == 0, "the receiver reads the amount")
		} else {
			nd.Assert(n == 32 && bytes.Equal(in.Mem.B[:32], amount), "the receiver reads the amount")
		}
		nd.Assert(uint64(elrondapi.XGetESDTTokenNonce(c)) == nonce, "the receiver reads the nonce")
		want := int32(vmcommon.Fungible)
		if isNft {
			want = int32(vmcommon.NonFungible)
		}
		nd.Assert(elrondapi.XGetESDTTokenType(c) == want, "the receiver reads the kind of the token")
		n = elrondapi.XGetCallValueTokenName(c, 0, 64)
		nd.Assert(int(n) == len(token) && bytes.Equal(in.Mem.B[64:64+len(token)], token), "the receiver reads the name with the value")
		if len(token) > 0 {
			nd.Assert(bytes.Equal(in.Mem.B[:32], amount), "the receiver reads the value with the name")
		}
		elrondapi.XBigIntGetESDTCallValue(c, 5)
		nd.Assert(e5(in).Cmp(new(big.Int).SetBytes(amount)) == 0, "the receiver reads the amount as a big integer")
		elrondapi.XBigIntGetCallValue(c, 5)
		nd.Assert(e5(in).Sign() == 0, "tokens are not taken for the call value")
	})
}

func e5(in *vmh.Inst) *big.Int { return in.W.Host.BigInt().GetOne(5) }

// sees nothing asserts that a contract called without tokens sees none.
func seesNone(in *vmh.Inst) {
	in.Do(func() {
		c := in.Ctx()
		nd.Assert(elrondapi.XGetESDTTokenName(c, 0) == 0 && elrondapi.XGetESDTValue(c, 0) == 0 && elrondapi.XGetESDTTokenNonce(c) == 0, "a contract that received no tokens sees none")
		nd.Assert(elrondapi.XGetCallValueTokenName(c, 0, 64) == 0, "a contract that received no tokens sees none")
	})
}

// T01_Receive has a contract receive tokens in every way.
func T01_Receive() {
	e, l := newEnv(vmh.Opt{})
	way := nd.Choice("way", nWays)
	isNft := nd.Bool("non-fungible")
	nonce := uint64(0)
	if isNft {
		nonce = nd.U64("nonce")
		nd.Assume(nonce != 0)
		if way == byNested || way == byAsync {
			nonce &= 0xff
			nd.Assume(nonce != 0)
		}
	}
	token := nd.Bytes("token", 2)
	v := make([]byte, 32)
	copy(v[30:], nd.Bytes("amount", 2))
	ran := 0
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		ran++
		sees(in, isNft, token, nonce, v)
		in.Nested(vmh.TransferExec, 1<<24, vmh.Carol, vmh.Zero32(), "h")
		sees(in, isNft, token, nonce, v)
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) { ran++; seesNone(in) }
	out, err := give(e, l, way, isNft, token, nonce, v, func(in *vmh.Inst, rc int32) {
		ran++
		nd.Assert(rc == 0, "the sender learns that the transfer succeeded")
		seesNone(in)
	})
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "a transfer with a function that succeeds succeeds")
	if way == byUser {
		nd.Assert(ran == 2, "the receiver's function runs once")
		nd.Assert(len(l.calls) == 0, "tokens sent by a user are not asked for again")
		return
	}
	nd.Assert(ran == 3, "the receiver's function runs once and the sender goes on")
	nd.Assert(len(l.calls) == 1, "the ledger is asked exactly once")
	nd.Assert(e.W.Journal == 1, "an accepted transfer is kept by the ledger")
	nd.Reach("received")
	n := 0
	for _, a := range out.OutputAccounts {
		n += len(a.OutputTransfers)
	}
	nd.Assert(n == 1, "exactly one transfer is reported")
	nd.Assert(total(out) == gas, "the gas of a token transfer adds up")
}

// T01_Undo has the receiver's function fail.
func T01_Undo() {
	e, l := newEnv(vmh.Opt{})
	way := nd.Choice("way", byUser)
	isNft := nd.Bool("non-fungible")
	nonce := uint64(0)
	if isNft {
		nonce = 5
	}
	fail := nd.Choice("failure", 6)
	first := nd.Bool("earlier transfer")
	l.logs = nd.Bool("logs")
	deep := nd.Bool("receiver sends on")
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Store([]byte("k"), []byte{1})
		if deep {
			l.out = nil
			in.TokenExec(vmh.Carol, []byte("T2"), vmh.Bytes32(big.NewInt(1)), false, 0, part/4, "h")
		}
		switch fail {
		case 4:
			in.Do(func() { in.W.Host.Runtime().FailExecution(errors.New("fault")) })
		case 5:
			in.Burn(1 << 41)
		default:
			in.FailWith(fail)
		}
	}
	e.C.Funcs["h"] = func(in *vmh.Inst) { in.Store([]byte("k"), []byte{2}) }
	want := 0
	e.B.Funcs["ok"] = func(in *vmh.Inst) { in.Finish([]byte{4}) }
	went := false
	check := func(in *vmh.Inst, rc int32) {
		went = true
		nd.Assert(rc == 1, "the sender learns that the function failed")
		nd.Assert(e.W.Journal == want, "the ledger undoes the transfer when the function fails")
		in.Finish([]byte{3})
	}
	// the earlier transfer is made by the same contract just before
	send := e.A
	out, err := func() (*vmcommon.VMOutput, error) {
		if !first {
			return give(e, l, way, isNft, []byte("TOK"), nonce, vmh.Bytes32(big.NewInt(9)), check)
		}
		want = 1
		send.Funcs["start"] = func(in *vmh.Inst) {
			out := l.out
			l.out = nil
			in.TokenExec(vmh.Bob, []byte("ONE"), vmh.Bytes32(big.NewInt(2)), false, 0, part, "ok")
			l.out = out
			send.Funcs["f"](in)
		}
		f := *vmh.Input(vmh.Alice, "start", gas)
		// give sets the functions up; the call it makes is thrown away
		return giveFrom(e, l, way, isNft, []byte("TOK"), nonce, vmh.Bytes32(big.NewInt(9)), check, &f)
	}()
	vmh.NoCrash(out, err)
	nd.Assert(went, "the sender goes on after the function failed")
	nd.Assert(out.ReturnCode == vmcommon.Ok, "the failure of the function does not fail the sender")
	if !went || out.ReturnCode != vmcommon.Ok {
		return
	}
	nd.Reach("undone")
	nd.Assert(total(out) == gas, "the gas of a failed token transfer adds up")
	n, logs := 0, 0
	for addr, a := range out.OutputAccounts {
		if a.BalanceDelta != nil {
			nd.Assert(a.BalanceDelta.Sign() == 0, "a failed token transfer moves no value")
		}
		if addr == string(vmh.Bob) || addr == string(vmh.Carol) {
			for _, u := range a.StorageUpdates {
				nd.Assert(len(u.Data) == 0, "a failed function leaves no storage change")
			}
		}
		if addr == string(vmh.Carol) {
			nd.Assert(len(a.OutputTransfers) == 0, "what the failed function sent on is undone too")
		} else {
			n += len(a.OutputTransfers)
		}
	}
	logs = len(out.Logs)
	per := 0
	if l.logs {
		per = 1
	}
	nd.Assert(n <= want+1 && logs <= (want+1)*per, "no more than the failed transfer itself is left in the result")
	if nd.Bool("look at the log") {
		nd.Assert(logs == want*per, "an undone transfer leaves no log")
	} else {
		nd.Assert(n == want, "an undone transfer is not reported")
	}
}

// giveFrom is give with another first call.
func giveFrom(e *vmh.Env, l *ledger, way int, isNft bool, token []byte, nonce uint64, amount []byte, check func(in *vmh.Inst, rc int32), input *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	fn, args := fungible, [][]byte{token, trim(amount)}
	to := vmh.Bob
	if isNft {
		fn, args, to = nft, [][]byte{token, vmh.U64Bytes(nonce), trim(amount), vmh.Bob}, vmh.Alice
	}
	full := append(append([][]byte{}, args...), []byte("g"))
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		switch way {
		case byAPI:
			rc := in.TokenExec(vmh.Bob, token, amount, isNft, int64(nonce), part, "g")
			if !in.Stopped() {
				check(in, rc)
			}
		case byNested:
			_, err := in.HostDest(to, big.NewInt(0), fn, uint64(part), full...)
			rc := int32(0)
			if err != nil {
				rc = 1
			}
			check(in, rc)
		case byAsync:
			in.Async(to, vmh.Zero32(), vmh.CallData(fn, full...))
		}
	}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {
		rc := int32(0)
		if a := e.H.Runtime().Arguments(); len(a) > 0 && len(a[0]) > 0 && a[0][len(a[0])-1] != 0 {
			rc = 1
		}
		check(in, rc)
	}
	if way != byAPI {
		l.out = func(in *vmcommon.ContractCallInput, left uint64) map[string]*vmcommon.OutputAccount {
			return map[string]*vmcommon.OutputAccount{string(vmh.Bob): {Address: vmh.Bob, BalanceDelta: big.NewInt(0), OutputTransfers: []vmcommon.OutputTransfer{{Value: big.NewInt(0), Data: []byte("g"), GasLimit: left, SenderAddress: in.CallerAddr}}}}
		}
	}
	return e.Call(input)
}

// T01_Read reads balances and token data from the ledger.
func T01_Read() {
	e, _ := newEnv(vmh.Opt{})
	token := nd.Bytes("token", 2)
	nonce := nd.U64("nonce")
	val := nd.BytesUpTo("value", 2)
	meta := nd.Bool("metadata")
	uri := nd.Bool("address of the content")
	name, attr, hash, props := nd.Bytes("name", 2), nd.Bytes("attr", 1), nd.Bytes("hash", 2), nd.Bytes("props", 2)
	roy := nd.U32("royalties")
	asks := 0
	e.W.Token = func(address, tokenID []byte, n uint64) (*esdt.ESDigitalToken, error) {
		asks++
		nd.Assert(bytes.Equal(address, vmh.Carol) && bytes.Equal(tokenID, token) && n == nonce, "the ledger is asked for the token of the account")
		t := &esdt.ESDigitalToken{Value: new(big.Int).SetBytes(val), Properties: props}
		if meta {
			t.TokenMetaData = &esdt.MetaData{Nonce: n, Name: name, Creator: vmh.Bob, Royalties: roy, Hash: hash, Attributes: attr}
			if uri {
				t.TokenMetaData.URIs = [][]byte{{1, 2, 3}}
			}
		}
		return t, nil
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Do(func() {
			c := in.Ctx()
			in.Put(0, vmh.Carol)
			in.Put(32, token)
			n := elrondapi.XGetESDTBalance(c, 0, 32, 2, int64(nonce), 40)
			want := trim(val)
			nd.Assert(int(n) == len(want) && bytes.Equal(in.Mem.B[40:40+len(want)], want), "a token balance is read exactly")
			elrondapi.XBigIntGetESDTExternalBalance(c, 0, 32, 2, int64(nonce), 3)
			nd.Assert(e.H.BigInt().GetOne(3).Cmp(new(big.Int).SetBytes(val)) == 0, "a token balance is read exactly as a big integer")
			a, b, u := elrondapi.XGetESDTNFTNameLength(c, 0, 32, 2, int64(nonce)), elrondapi.XGetESDTNFTAttributeLength(c, 0, 32, 2, int64(nonce)), elrondapi.XGetESDTNFTURILength(c, 0, 32, 2, int64(nonce))
			wa, wb, wu := int32(0), int32(0), int32(0)
			if meta {
				wa, wb = 2, 1
				if uri {
					wu = 3
				}
			}
			nd.Assert(a == wa && b == wb && u == wu, "the lengths of token data are read exactly")
			n = elrondapi.XGetESDTTokenData(c, 0, 32, 2, int64(nonce), 1, 50, 60, 70, 80, 90, 2, 130)
			nd.Assert(int(n) == len(want) && e.H.BigInt().GetOne(1).Cmp(new(big.Int).SetBytes(val)) == 0, "the amount in token data is read exactly")
			nd.Assert(bytes.Equal(in.Mem.B[50:52], props), "the properties of a token are read exactly")
			if meta {
				nd.Assert(bytes.Equal(in.Mem.B[60:62], hash) && bytes.Equal(in.Mem.B[70:72], name) && bytes.Equal(in.Mem.B[80:81], attr) && bytes.Equal(in.Mem.B[90:122], vmh.Bob), "the data of a token are read exactly")
				nd.Assert(e.H.BigInt().GetOne(2).Cmp(big.NewInt(int64(roy))) == 0, "the royalties of a token are read exactly")
				if uri {
					nd.Assert(bytes.Equal(in.Mem.B[130:133], []byte{1, 2, 3}), "the address of the content is read exactly")
				}
			}
		})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == vmcommon.Ok, "reading succeeds")
	nd.Assert(asks == 6, "the ledger is asked once by each operation")
	nd.Reach("read")
}
