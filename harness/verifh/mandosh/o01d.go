package mandosh

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

func bench() *arwenmandos.ArwenTestExecutor {
	return &arwenmandos.ArwenTestExecutor{World: worldmock.NewMockWorld()}
}

// run executes a step.
func run(ae *arwenmandos.ArwenTestExecutor, text string) error {
	parser := mjparse.NewParser(nil)
	step, err := parser.ParseScenarioStep(text)
	nd.Assert(err == nil, "a step is read")
	if err != nil {
		return nil
	}
	return ae.ExecuteStep(step)
}

func setState(ae *arwenmandos.ArwenTestExecutor, accounts string) bool {
	err := run(ae, `{"step":"setState","accounts":{`+accounts+`}}`)
	nd.Assert(err == nil, "a state is set")
	return err == nil
}

// verdict says that expected accounts are accepted exactly when they match.
func verdict(ae *arwenmandos.ArwenTestExecutor, accounts string, match bool) {
	err := run(ae, `{"step":"checkState","accounts":{`+accounts+`}}`)
	if match {
		nd.Assert(err == nil, "expected accounts that match are accepted")
		nd.Reach("accepted")
	} else {
		nd.Assert(err != nil, "expected accounts that do not match are refused")
		nd.Reach("refused")
	}
}

// against compares a field of an account with what is expected of it: a
// value, any value, or nothing said.
func against(f *fields, key string, have []byte, ignored bool) bool {
	switch nd.Choice("expectation", 3) {
	case 0:
		t, b := word("expected")
		f.str(key, t)
		return bytes.Equal(have, b)
	case 1:
		f.str(key, "*")
		return true
	}
	return ignored || len(have) == 0
}

func againstNumber(f *fields, key string, have uint64) bool {
	switch nd.Choice("expectation", 3) {
	case 0:
		t, v := num("expected")
		f.str(key, t)
		return have == v
	case 1:
		f.str(key, "*")
		return true
	}
	return have == 0
}

// O01_StateAccount: an account is accepted exactly when it has what is
// expected of it.
func O01_StateAccount() {
	ae := bench()
	nt, n := num("nonce")
	bt, b := num("balance")
	ut, u := word("username")
	ot, o := word("owner")
	ct, c := word("code")
	if !setState(ae, `"sc:a":{"nonce":"`+nt+`","balance":"`+bt+`","username":"`+ut+`","owner":"`+ot+`","code":"`+ct+`","asyncCallData":"call"}`) {
		return
	}
	f := &fields{}
	special := nd.Choice("field", 6)
	match := true
	if special == 0 {
		match = againstNumber(f, "nonce", n)
	} else {
		f.str("nonce", nt)
	}
	if special == 1 {
		match = againstNumber(f, "balance", b)
	} else {
		f.str("balance", bt)
	}
	if special == 2 {
		match = against(f, "username", u, false)
	} else {
		f.str("username", ut)
	}
	if special == 3 {
		match = against(f, "owner", o, true)
	}
	if special == 4 {
		match = against(f, "code", c, false)
	} else {
		f.str("code", ct)
	}
	if special == 5 {
		match = against(f, "asyncCallData", []byte("call"), true)
	}
	verdict(ae, `"sc:a":`+f.object(), match)
}

// O01_StateAccounts: the accounts are accepted exactly when they are those
// expected.
func O01_StateAccounts() {
	ae := bench()
	at, a := address("a")
	bt, b := address("b")
	nd.Assume(!bytes.Equal(a, b))
	if !setState(ae, `"`+at+`":{"nonce":"1"},"`+bt+`":{"balance":"2"}`) {
		return
	}
	ct, c := address("c")
	accounts := `"` + ct + `":{"nonce":"*","balance":"*"}`
	all := false
	if nd.Bool("two") {
		dt, d := address("d")
		nd.Assume(!bytes.Equal(c, d))
		accounts += `,"` + dt + `":{"nonce":"*","balance":"*"}`
		all = bytes.Equal(c, a) && bytes.Equal(d, b) || bytes.Equal(c, b) && bytes.Equal(d, a)
		if nd.Bool("more") {
			accounts += `,"+":""`
		}
		verdict(ae, accounts, all)
		return
	}
	more := nd.Bool("more")
	if more {
		accounts += `,"+":""`
	}
	verdict(ae, accounts, more && (bytes.Equal(c, a) || bytes.Equal(c, b)))
}

// O01_StateStorage: storage is accepted exactly when it is the expected one.
func O01_StateStorage() {
	ae := bench()
	kt, k := word("key")
	vt, v := word("value")
	if !setState(ae, `"address:a":{"storage":{"`+kt+`":"`+vt+`","str:x":"`+vt+`","str:ELRONDx":"5"}}`) {
		return
	}
	nd.Assume(k[0] != 'x')
	storage := ""
	match := true
	seen, other := false, false
	if nd.Bool("first") {
		et, e := word("expected key")
		nd.Assume(e[0] != 'x')
		switch nd.Choice("value", 3) {
		case 0:
			wt, w := word("expected value")
			storage = `"` + et + `":"` + wt + `"`
			match = bytes.Equal(e, k) && bytes.Equal(v, w)
		case 1:
			storage = `"` + et + `":"*"`
		case 2:
			storage = `"` + et + `":""`
			match = !bytes.Equal(e, k)
		}
		seen = bytes.Equal(e, k)
	}
	if nd.Bool("second") {
		if storage != "" {
			storage += ","
		}
		storage += `"str:x":"` + vt + `"`
		other = true
	}
	more := nd.Bool("more")
	if more {
		if storage != "" {
			storage += ","
		}
		storage += `"+":""`
	}
	if !more {
		match = match && seen && other
	}
	verdict(ae, `"address:a":{"storage":{`+storage+`}}`, match)
}

// O01_StateToken: the tokens of an account are accepted exactly when they are
// those expected.
func O01_StateToken() {
	ae := bench()
	bt, b := digits("balance", 1, 10)
	nd.Assume(b > 0)
	at, a := word("attributes")
	ht, h := word("hash")
	ut, u := word("uri")
	rt, r := num("royalties")
	lt, l := num("last nonce")
	ft, fr := digits("frozen", 1, 2)
	if !setState(ae, `"address:a":{"esdt":{"str:T":{"nonce":"5","balance":"`+bt+`","creator":"address:c","royalties":"`+rt+`","hash":"`+ht+`","uri":"`+ut+`","attributes":"`+at+`","lastNonce":"`+lt+`","frozen":"`+ft+`","roles":["one"]}}}`) {
		return
	}
	f := &fields{}
	match := true
	special := nd.Choice("field", 10)
	if special == 0 {
		t, v := digits("expected nonce", 1, 10)
		f.str("nonce", t)
		match = v == 5
	} else {
		f.str("nonce", "5")
	}
	if special == 1 {
		match = againstNumber(f, "balance", b)
	} else {
		f.str("balance", bt)
	}
	if special == 2 {
		t, v := num("expected royalties")
		f.str("royalties", t)
		match = v == r
	}
	if special == 3 {
		match = against(f, "hash", h, true)
	}
	if special == 4 {
		match = against(f, "uri", u, true)
	}
	if special == 5 {
		match = against(f, "attributes", a, true)
	}
	if special == 6 {
		t, c := address("expected creator")
		f.str("creator", t)
		match = c[0] == 'c'
	}
	if special == 7 {
		t, v := num("expected last nonce")
		f.str("lastNonce", t)
		match = v == l
	} else {
		f.str("lastNonce", lt)
	}
	if special == 8 {
		t, v := digits("expected frozen", 1, 2)
		f.str("frozen", t)
		match = v == fr
	}
	if special == 9 {
		switch nd.Choice("roles", 4) {
		case 0:
			match = false
		case 1:
			f.put("roles", `["one","two"]`)
			match = false
		case 2:
			f.put("roles", `["two"]`)
			match = false
		case 3:
			f.put("roles", `["one","one"]`)
		}
	} else {
		f.put("roles", `["one"]`)
	}
	verdict(ae, `"address:a":{"esdt":{"str:T":`+f.object()+`}}`, match)
}

// O01_StateTokens: more tokens, or others, than expected.
func O01_StateTokens() {
	ae := bench()
	bt, b := digits("balance", 1, 10)
	ct, c := digits("other", 1, 10)
	nt, n := word("name")
	nd.Assume(n[0] != 'U' && b > 0 && c > 0)
	if !setState(ae, `"address:a":{"esdt":{"str:U":"`+bt+`","`+nt+`":"`+ct+`"}}`) {
		return
	}
	tokens := ""
	match := true
	switch nd.Choice("first", 4) {
	case 0:
		et, e := digits("expected", 1, 10)
		tokens = `"str:U":"` + et + `"`
		match = e == b
	case 1:
		tokens = `"str:U":"*"`
	case 2:
		tokens = `"str:U":"` + bt + `"`
	case 3:
		tokens = `"str:U":{"balance":"` + bt + `","roles":[]}`
	}
	switch nd.Choice("second", 4) {
	case 0:
		mt, m := word("expected name")
		nd.Assume(m[0] != 'U')
		tokens += `,"` + mt + `":"` + ct + `"`
		match = match && bytes.Equal(m, n)
	case 1:
		match = false
	case 2:
		tokens += `,"+":""`
	case 3:
		tokens, match = "", false
	}
	esdt := `{` + tokens + `}`
	if tokens == "" && nd.Bool("all") {
		esdt, match = `"*"`, true
	}
	verdict(ae, `"address:a":{"esdt":`+esdt+`}`, match)
}

// O01_StateSet: the state set is the one given.
func O01_StateSet() {
	ae := bench()
	at, a := contractAddress("a")
	nt, n := num("nonce")
	bt, b := num("balance")
	kt, k := word("key")
	vt, v := word("value")
	ut, u := word("username")
	ot, o := address("owner")
	st, s := num("shard")
	ct, c := word("code")
	if !setState(ae, `"`+at+`":{"nonce":"`+nt+`","balance":"`+bt+`","storage":{"`+kt+`":"`+vt+`"},"username":"`+ut+`","owner":"`+ot+`","shard":"`+st+`","code":"`+ct+`"}`) {
		return
	}
	acct := ae.World.AcctMap.GetAccount(a)
	nd.Assert(acct != nil && len(ae.World.AcctMap) == 1, "a state has the accounts given")
	if acct == nil {
		return
	}
	nd.Assert(acct.Nonce == n && eqBig(acct.Balance, b) && uint64(acct.ShardID) == s, "an account of a state has the numbers given")
	nd.Assert(bytes.Equal(acct.Username, u) && bytes.Equal(acct.OwnerAddress, o) && bytes.Equal(acct.Code, c) && acct.IsSmartContract, "an account of a state has the values given")
	nd.Assert(len(acct.Storage) == 1 && bytes.Equal(acct.Storage[string(k)], v), "an account of a state has the storage given")
	nd.Reach("set")
}

// O01_StateSetToken: the tokens set are those given.
func O01_StateSetToken() {
	ae := bench()
	lt, l := num("last nonce")
	bt, b := num("balance")
	form := nd.Choice("form", 3)
	token := []string{
		`{"lastNonce":"` + lt + `","roles":["r"]}`,
		`{"instances":[{"nonce":"1","balance":"` + bt + `"},{"nonce":"2","balance":"7"}],"lastNonce":"` + lt + `"}`,
		`{"balance":"` + bt + `","lastNonce":"` + lt + `"}`,
	}[form]
	if !setState(ae, `"address:a":{"esdt":{"str:T":`+token+`}}`) {
		return
	}
	addr := []byte("a_______________________________")
	data, err := ae.World.AcctMap.GetAccount(addr).GetFullMockESDTData()
	nd.Assert(err == nil, "the tokens of an account can be listed")
	if err != nil {
		return
	}
	t := data["T"]
	nd.Assert(t != nil && t.LastNonce == l, "a token set has its last nonce")
	if t == nil {
		return
	}
	sum := uint64(0)
	for _, i := range t.Instances {
		nonce := i.TokenMetaData.Nonce
		want := b
		if nonce == 2 {
			want = 7
		}
		nd.Assert(nonce == 0 && form == 2 || (nonce == 1 || nonce == 2) && form == 1, "a token set has the instances given")
		nd.Assert(eqBig(i.Value, want), "a token set has its balance")
		sum += i.Value.Uint64()
	}
	nd.Assert(sum == []uint64{0, b + 7, b}[form], "a token set has all instances")
	nd.Assert((len(t.Roles) == 1) == (form == 0), "a token set has its roles")
	nd.Reach("token set")
}

// outcome reads what is expected of a result and compares.
func outcome(expect string, checkGas bool, out *vmcommon.VMOutput, match bool) {
	parser := mjparse.NewParser(nil)
	step, err := parser.ParseScenarioStep(`{"step":"scCall","tx":{"from":"address:a","to":"sc:b"},"expect":` + expect + `}`)
	nd.Assert(err == nil, "an expected result is read")
	if err != nil {
		return
	}
	err = bench().XCheckTxResults(step.(*mj.TxStep).ExpectedResult, checkGas, out)
	if match {
		nd.Assert(err == nil, "a result that matches is accepted")
		nd.Reach("accepted")
	} else {
		nd.Assert(err != nil, "a result that does not match is refused")
		nd.Reach("refused")
	}
}

// O01_Result: a result is accepted exactly when it is the expected one.
func O01_Result() {
	refund, gas := uint64(nd.U8("refund")), uint64(nd.U8("gas"))
	nd.Assume(refund < 12 && gas < 12)
	code := vmcommon.ReturnCode(nd.Choice("code", 3))
	msg := nd.StringUpTo("message", 1)
	data := nd.BytesUpTo("data", 1)
	out := &vmcommon.VMOutput{ReturnCode: code, ReturnMessage: msg, GasRefund: new(big.Int).SetUint64(refund), GasRemaining: gas, ReturnData: [][]byte{data, {1}}}
	f := &fields{}
	match := true
	special := nd.Choice("field", 5)
	if special == 0 {
		match = againstNumber(f, "status", uint64(code))
	} else {
		f.str("status", "*")
	}
	if special == 1 {
		match = against(f, "message", []byte(msg), false)
	} else {
		f.str("message", "*")
	}
	if special == 2 {
		match = againstNumber(f, "refund", refund)
	} else {
		f.str("refund", "*")
	}
	checkGas := true
	if special == 3 {
		checkGas = nd.Bool("check gas")
		switch nd.Choice("expectation", 3) {
		case 0:
			t, v := num("expected gas")
			f.str("gas", t)
			match = v == gas || !checkGas
		case 1:
			f.str("gas", "*")
		}
	}
	if special == 4 {
		switch nd.Choice("out", 5) {
		case 0:
			t, b := word("expected out")
			f.put("out", `["`+t+`","1"]`)
			match = bytes.Equal(data, b)
		case 1:
			t, b := word("expected out")
			f.put("out", `["*","`+t+`"]`)
			match = b[0] == 1
		case 2:
			f.put("out", `["*"]`)
			match = false
		case 3:
			f.put("out", `["*","*","*"]`)
			match = false
		case 4:
			match = false
		}
	} else {
		f.put("out", `["*","*"]`)
	}
	outcome(f.object(), checkGas, out, match)
}

// O01_Logs: logs are accepted exactly when they are the expected ones.
func O01_Logs() {
	b := nd.Bytes("log", 4)
	addr := make([]byte, 32)
	for i := range addr {
		addr[i] = '_'
	}
	addr[0] = b[0]
	log := &vmcommon.LogEntry{Address: addr, Identifier: b[1:2], Topics: [][]byte{b[2:3], {9}}, Data: b[3:]}
	out := &vmcommon.VMOutput{GasRefund: big.NewInt(0), Logs: []*vmcommon.LogEntry{log, {Identifier: []byte("i")}}}
	second := `{"identifier":"str:i"}`
	f := &fields{}
	match := true
	special := nd.Choice("field", 6)
	if special == 0 {
		t, a := address("expected address")
		f.str("address", t)
		match = a[0] == b[0]
	} else {
		f.str("address", "*")
	}
	if special == 1 {
		match = against(f, "identifier", b[1:2], false)
	} else {
		f.str("identifier", "*")
	}
	if special == 2 {
		match = against(f, "data", b[3:], false)
	} else {
		f.str("data", "*")
	}
	if special == 3 {
		t, v := word("expected topic")
		switch nd.Choice("topics", 4) {
		case 0:
			f.put("topics", `["`+t+`","9"]`)
			match = v[0] == b[2]
		case 1:
			f.put("topics", `["*","`+t+`"]`)
			match = v[0] == 9
		case 2:
			f.put("topics", `["*"]`)
			match = false
		case 3:
			match = false
		}
	} else {
		f.put("topics", `["*","*"]`)
	}
	logs := "[" + f.object() + "," + second + "]"
	if special == 4 {
		switch nd.Choice("logs", 4) {
		case 0:
			logs, match = "["+f.object()+"]", false
		case 1:
			logs, match = "[]", false
		case 2:
			logs = `"*"`
		case 3:
			logs, match = "["+second+","+f.object()+"]", false
		}
	}
	if special == 5 {
		outcome(`{}`, true, out, true)
		return
	}
	if special == 4 && logs[1] == '{' && logs[2] == '"' && logs[3] == 'i' {
		nd.Assume(b[1] != 'i')
	}
	outcome(`{"logs":`+logs+`}`, true, out, match)
}
