package mandosh

import (
	"bytes"
	"math/big"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// fields are the entries of a map in a scenario, one of which may be left out.
type fields struct {
	text  string
	count int
	left  int
}

func (f *fields) put(key string, value string) bool {
	f.count++
	if f.count == f.left {
		return false
	}
	if f.text != "" {
		f.text += ","
	}
	f.text += "\"" + key + "\":" + value
	return true
}

func (f *fields) str(key string, value string) bool {
	return f.put(key, "\""+value+"\"")
}

func (f *fields) object() string { return "{" + f.text + "}" }

// leaving leaves at most one of n entries out.
func leaving(n int) *fields { return &fields{left: nd.Choice("left out", n+1)} }

// num is a number of one digit as text.
func num(name string) (string, uint64) { return digits(name, 1, 10) }

// word is a short text as value notation.
func word(name string) (string, []byte) {
	s := nd.Bytes(name, 1)
	nd.Assume(s[0] != '|' && s[0] != '"' && s[0] != '\\')
	return "str:" + string(s), s
}

func address(name string) (string, []byte) {
	w := nd.Bytes(name, 1)
	nd.Assume(w[0] != '|' && w[0] != '"' && w[0] != '\\' && w[0] != '#')
	a := make([]byte, 32)
	for i := range a {
		a[i] = '_'
	}
	a[0] = w[0]
	return "address:" + string(w), a
}

func contractAddress(name string) (string, []byte) {
	s, a := address(name)
	c := make([]byte, 32)
	copy(c[8:], a)
	return "sc:" + s[len("address:"):], c
}

// steps reads the steps of a scenario, and reads them again after they were
// written.
func steps(stepTexts string) (*mj.Scenario, *mj.Scenario) {
	parser := mjparse.NewParser(nil)
	first, err := parser.ParseScenarioFile([]byte(`{"name":"n","steps":[` + stepTexts + `]}`))
	nd.Assert(err == nil, "a scenario is read")
	if err != nil {
		return nil, nil
	}
	text := mjwrite.ScenarioToJSONString(first)
	second, err := parser.ParseScenarioFile([]byte(text))
	nd.Assert(err == nil, "a written scenario is read")
	if err != nil {
		return nil, nil
	}
	nd.Assert(len(first.Steps) == len(second.Steps) && first.Name == second.Name && first.CheckGas == second.CheckGas && first.GasSchedule == second.GasSchedule, "a written scenario has the same steps")
	return first, second
}

func eqBig(got *big.Int, want uint64) bool {
	if got == nil {
		return want == 0
	}
	return got.Cmp(new(big.Int).SetUint64(want)) == 0
}

// O01_SetAccount: an account of a scenario has the fields it is given.
func O01_SetAccount() {
	f := leaving(9)
	addrText, addr := address("address")
	type acct struct {
		comment               string
		shard, nonce, balance uint64
		username, code, owner []byte
		key, value            []byte
		hasStorage            bool
		call                  string
	}
	var w acct
	if f.str("comment", "note") {
		w.comment = "note"
	}
	t, v := num("shard")
	if f.str("shard", t) {
		w.shard = v
	}
	t, v = num("nonce")
	if f.str("nonce", t) {
		w.nonce = v
	}
	t, v = num("balance")
	if f.str("balance", t) {
		w.balance = v
	}
	t, b := word("username")
	if f.str("username", t) {
		w.username = b
	}
	kt, k := word("key")
	t, b = word("value")
	if f.put("storage", `{"`+kt+`":"`+t+`"}`) {
		w.key, w.value, w.hasStorage = k, b, true
	}
	t, b = word("code")
	if f.str("code", t) {
		w.code = b
	}
	t, b = address("owner")
	if f.str("owner", t) {
		w.owner = b
	}
	if f.str("asyncCallData", "call") {
		w.call = "call"
	}
	one, two := steps(`{"step":"setState","comment":"c","accounts":{"` + addrText + `":` + f.object() + `}}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		step, ok := sc.Steps[0].(*mj.SetStateStep)
		nd.Assert(ok && step.Comment == "c" && len(step.Accounts) == 1, "a setState step has its accounts")
		a := step.Accounts[0]
		nd.Assert(bytes.Equal(a.Address.Value, addr), "an account has its address")
		nd.Assert(a.Comment == w.comment && a.AsyncCallData == w.call, "an account has its texts")
		nd.Assert(a.Shard.Value == w.shard && a.Nonce.Value == w.nonce && eqBig(a.Balance.Value, w.balance), "an account has its numbers")
		nd.Assert(bytes.Equal(a.Username.Value, w.username) && bytes.Equal(a.Code.Value, w.code) && bytes.Equal(a.Owner.Value, w.owner), "an account has its values")
		nd.Assert((len(a.Storage) == 1) == w.hasStorage, "an account has its storage")
		if len(a.Storage) == 1 {
			nd.Assert(bytes.Equal(a.Storage[0].Key.Value, w.key) && bytes.Equal(a.Storage[0].Value.Value, w.value), "an account has its storage values")
		}
	}
	nd.Reach("account")
}

// token is what a token entry holds.
type token struct {
	nonce, balance, royalties      uint64
	creator, hash, uri, attributes []byte
	lastNonce, frozen              uint64
	role                           string
	instances                      int
}

// instance writes the fields of a token instance.
func (w *token) instance(f *fields, suffix string) {
	t, v := num("token nonce" + suffix)
	if f.str("nonce", t) {
		w.nonce = v
	}
	t, v = num("token balance" + suffix)
	if f.str("balance", t) {
		w.balance = v
	}
	t, b := address("creator" + suffix)
	if f.str("creator", t) {
		w.creator = b
	}
	t, v = num("royalties" + suffix)
	if f.str("royalties", t) {
		w.royalties = v
	}
	t, b = word("hash" + suffix)
	if f.str("hash", t) {
		w.hash = b
	}
	t, b = word("uri" + suffix)
	if f.str("uri", t) {
		w.uri = b
	}
	t, b = word("attributes" + suffix)
	if f.str("attributes", t) {
		w.attributes = b
	}
}

func (w *token) isInstance(i *mj.ESDTInstance) {
	nd.Assert(i.Nonce.Value == w.nonce && eqBig(i.Balance.Value, w.balance) && i.Royalties.Value == w.royalties, "a token has its numbers")
	nd.Assert(bytes.Equal(i.Creator.Value, w.creator) && bytes.Equal(i.Hash.Value, w.hash) && bytes.Equal(i.Uri.Value, w.uri) && bytes.Equal(i.Attributes.Value, w.attributes), "a token has its values")
}

// O01_SetToken: the tokens of an account are those given.
func O01_SetToken() {
	nameText, name := word("token")
	var w, w2 token
	list := false
	var text string
	w.instances = 1
	switch nd.Choice("form", 4) {
	case 0: // a balance
		t, v := num("balance")
		text, w.balance = `"`+t+`"`, v
	case 1: // one instance and the rest
		f := leaving(10)
		w.instance(f, "")
		t, v := num("last nonce")
		if f.str("lastNonce", t) {
			w.lastNonce = v
		}
		t, v = num("frozen")
		if f.str("frozen", t) {
			w.frozen = v
		}
		if f.put("roles", `["role"]`) {
			w.role = "role"
		}
		text = f.object()
	case 2: // a balance and one other field
		f := &fields{}
		t, v := num("balance")
		f.str("balance", t)
		w.balance = v
		t, v = num("other")
		switch nd.Choice("other field", 4) {
		case 0:
			f.str("lastNonce", t)
			w.lastNonce = v
		case 1:
			f.str("frozen", t)
			w.frozen = v
		case 2:
			f.str("royalties", t)
			w.royalties = v
		case 3:
			f.str("nonce", t)
			w.nonce = v
		}
		text = f.object()
	case 3: // a list of instances
		w.instances = 1 + nd.Choice("instances", 2)
		list = true
		f := leaving(7)
		w.instance(f, "")
		text = f.object()
		if w.instances == 2 {
			f2 := &fields{}
			w2.instance(f2, "2")
			text += "," + f2.object()
		}
		text = `{"instances":[` + text + `]}`
	}
	_ = list
	one, two := steps(`{"step":"setState","accounts":{"address:a":{"esdt":{"` + nameText + `":` + text + `}}}}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		tokens := sc.Steps[0].(*mj.SetStateStep).Accounts[0].ESDTData
		nd.Assert(len(tokens) == 1 && bytes.Equal(tokens[0].TokenIdentifier.Value, name), "an account has its tokens")
		tk := tokens[0]
		nd.Assert(tk.LastNonce.Value == w.lastNonce && tk.Frozen.Value == w.frozen, "a token has its last nonce and state")
		nd.Assert(w.role == "" && len(tk.Roles) == 0 || len(tk.Roles) == 1 && tk.Roles[0] == w.role, "a token has its roles")
		nd.Assert(len(tk.Instances) == w.instances, "a token has its instances")
		w.isInstance(tk.Instances[0])
		if w.instances == 2 {
			w2.isInstance(tk.Instances[1])
		}
	}
	nd.Reach("token")
}

// want is an expected value: none, any, or one.
type want struct {
	given, any bool
	value      []byte
	number     uint64
}

func (w want) isBytes(c mj.JSONCheckBytes, what string) {
	nd.Assert(c.IsUnspecified() == !w.given && c.IsStar == w.any && bytes.Equal(c.Value, w.value), "an expected value is as given: "+what)
}

func (w want) isNumber(c mj.JSONCheckUint64, what string) {
	nd.Assert(c.IsUnspecified() == !w.given && c.IsStar == w.any && c.Value == w.number, "an expected number is as given: "+what)
}

func (w want) isBig(c mj.JSONCheckBigInt, what string) {
	nd.Assert(c.IsUnspecified() == !w.given && c.IsStar == w.any && eqBig(c.Value, w.number), "an expected number is as given: "+what)
}

// expect writes an expected value.
func (f *fields) expect(key string, special int) want {
	t, b := word(key)
	return f.expected(key, t, want{given: true, value: b}, special)
}

func (f *fields) expectNumber(key string, special int) want {
	t, v := num(key)
	return f.expected(key, t, want{given: true, number: v}, special)
}

func (f *fields) expected(key string, text string, w want, special int) want {
	if f.count+1 == special {
		if nd.Bool("any") {
			text, w = "*", want{given: true, any: true}
		} else {
			text, w = "", want{given: true}
		}
	}
	if !f.str(key, text) {
		return want{}
	}
	return w
}

// O01_CheckAccount: the expected account is the one given.
func O01_CheckAccount() {
	addrText, addr := address("address")
	f := &fields{}
	special := 0
	if nd.Bool("leave out") {
		f.left = 1 + nd.Choice("which", 7)
	} else {
		special = nd.Choice("which", 7)
	}
	nonce := f.expectNumber("nonce", special)
	balance := f.expectNumber("balance", special)
	username := f.expect("username", special)
	code := f.expect("code", special)
	owner := f.expect("owner", special)
	call := f.expect("asyncCallData", special)
	form := nd.Choice("storage", 4)
	kt, k := word("key")
	vt, v := word("value")
	switch form {
	case 1:
		f.str("storage", "*")
	case 2:
		f.put("storage", `{"`+kt+`":"`+vt+`"}`)
	case 3:
		f.put("storage", `{"`+kt+`":"*","+":""}`)
	}
	hasStorage := form >= 2 && f.left != f.count
	more := nd.Bool("more accounts")
	tail := ""
	if more {
		tail = `,"+":""`
	}
	one, two := steps(`{"step":"checkState","comment":"c","accounts":{"` + addrText + `":` + f.object() + tail + `}}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		step, ok := sc.Steps[0].(*mj.CheckStateStep)
		nd.Assert(ok && step.Comment == "c", "a checkState step is one")
		nd.Assert(step.CheckAccounts.MoreAccountsAllowed == more && len(step.CheckAccounts.Accounts) == 1, "the expected accounts are those given")
		a := step.CheckAccounts.Accounts[0]
		nd.Assert(bytes.Equal(a.Address.Value, addr), "an expected account has its address")
		nonce.isNumber(a.Nonce, "nonce")
		balance.isBig(a.Balance, "balance")
		username.isBytes(a.Username, "username")
		code.isBytes(a.Code, "code")
		owner.isBytes(a.Owner, "owner")
		call.isBytes(a.AsyncCallData, "async call data")
		nd.Assert(a.IgnoreStorage == (form == 1 && f.left != f.count), "storage is ignored where the scenario says so")
		nd.Assert(a.MoreStorageAllowed == (form == 3 && hasStorage), "more storage is allowed where the scenario says so")
		nd.Assert((len(a.CheckStorage) == 1) == hasStorage, "the expected storage is the one given")
		if len(a.CheckStorage) == 1 {
			w := want{given: true, value: v}
			if form == 3 {
				w = want{given: true, any: true}
			}
			nd.Assert(bytes.Equal(a.CheckStorage[0].Key.Value, k), "the expected storage has its keys")
			w.isBytes(a.CheckStorage[0].CheckValue, "storage")
		}
	}
	nd.Reach("expected account")
}

// O01_CheckToken: the expected tokens are those given.
func O01_CheckToken() {
	nameText, name := word("token")
	all := nd.Choice("all", 3)
	form := 0
	if all == 0 {
		form = nd.Choice("form", 4)
	}
	var text string
	var w [7]want
	var last, frozen want
	role := false
	n := 1
	instance := func(f *fields, special int) {
		w[0] = f.expectNumber("nonce", 0)
		w[1] = f.expectNumber("balance", special)
		w[2] = f.expect("creator", special)
		w[3] = f.expectNumber("royalties", special)
		w[4] = f.expect("hash", special)
		w[5] = f.expect("uri", special)
		w[6] = f.expect("attributes", special)
	}
	f := &fields{}
	special := 0
	switch form {
	case 0:
		t, v := num("balance")
		w[1] = want{given: true, number: v}
		if nd.Bool("any") {
			t, w[1] = "*", want{given: true, any: true}
		}
		text = `"` + t + `"`
	case 1, 2:
		if nd.Bool("leave out") {
			f.left = 1 + nd.Choice("which", 7)
		} else {
			special = nd.Choice("which", 8)
		}
		instance(f, special)
		if form == 2 {
			text = `{"instances":[` + f.object() + `]}`
			break
		}
		if nd.Bool("rest") {
			last = f.expectNumber("lastNonce", 0)
			frozen = f.expectNumber("frozen", 0)
			f.put("roles", `["role"]`)
			role = true
		}
		text = f.object()
	case 3:
		n = 0
		last = f.expectNumber("lastNonce", 0)
		text = f.object()
	}
	more := f.left == 0 && special == 0 && nd.Bool("more")
	tail := ""
	if more {
		tail = `,"+":""`
	}
	esdt := `{"` + nameText + `":` + text + tail + `}`
	if all == 1 {
		esdt = `"*"`
	} else if all == 2 {
		esdt = `{"+":""}`
	}
	one, two := steps(`{"step":"checkState","accounts":{"address:a":{"esdt":` + esdt + `}}}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		a := sc.Steps[0].(*mj.CheckStateStep).CheckAccounts.Accounts[0]
		nd.Assert(a.IgnoreESDT == (all == 1), "tokens are ignored where the scenario says so")
		nd.Assert(a.MoreESDTTokensAllowed == (all == 2 || all == 0 && more), "more tokens are allowed where the scenario says so")
		if all != 0 {
			nd.Assert(len(a.CheckESDTData) == 0, "no token is expected where none is given")
			continue
		}
		nd.Assert(len(a.CheckESDTData) == 1 && bytes.Equal(a.CheckESDTData[0].TokenIdentifier.Value, name), "the expected tokens are those given")
		tk := a.CheckESDTData[0]
		nd.Assert(len(tk.Instances) == n, "the expected instances are those given")
		nd.Assert(tk.LastNonce.Value == last.number && tk.Frozen.Value == frozen.number, "the expected state of a token is the one given")
		nd.Assert((len(tk.Roles) == 1) == role, "the expected roles are those given")
		if n == 0 {
			continue
		}
		i := tk.Instances[0]
		nd.Assert(i.Nonce.Value == w[0].number, "an expected instance has its nonce")
		nd.Assert(i.Balance.IsStar == w[1].any && eqBig(i.Balance.Value, w[1].number), "an expected instance has its balance")
		if form != 0 {
			w[2].isBytes(i.Creator, "creator")
			w[3].isNumber(i.Royalties, "royalties")
			w[4].isBytes(i.Hash, "hash")
			w[5].isBytes(i.Uri, "uri")
			w[6].isBytes(i.Attributes, "attributes")
		}
	}
	nd.Reach("expected token")
}

// O01_Tx: a transaction is the one given.
func O01_Tx() {
	kind := nd.Choice("kind", 5)
	name := []string{"scDeploy", "scCall", "scQuery", "transfer", "validatorReward"}[kind]
	deploy, call, query, transfer, reward := kind == 0, kind == 1, kind == 2, kind == 3, kind == 4
	f := &fields{}
	fromText, from := address("from")
	if !query && !reward {
		f.str("from", fromText)
	} else {
		from = nil
	}
	toText, to := contractAddress("to")
	if !deploy {
		f.str("to", toText)
	} else {
		to = nil
	}
	var value, limit, price, nonce, esdtValue uint64
	var esdt, code, arg []byte
	function := ""
	if !query {
		t, v := num("value")
		f.str("value", t)
		value = v
	}
	if !query && !reward && nd.Bool("esdt") {
		tt, tb := word("token")
		nt, n := num("token nonce")
		vt, v := num("token value")
		esdt, nonce, esdtValue = tb, n, v
		f.put("esdt", `{"tokenIdentifier":"`+tt+`","nonce":"`+nt+`","value":"`+vt+`"}`)
	}
	if call || query {
		f.str("function", "doIt")
		function = "doIt"
	}
	if deploy {
		t, b := word("code")
		f.str("contractCode", t)
		code = b
	}
	nargs := 0
	if !transfer && !reward {
		t, b := word("argument")
		args := `"` + t + `"`
		arg = b
		nargs = 1
		if nd.Bool("two") {
			args += `,["true","u8:5"]`
			nargs = 2
		}
		f.put("arguments", "["+args+"]")
	}
	if !query && !reward {
		t, v := num("limit")
		f.str("gasLimit", t)
		limit = v
		t, v = num("price")
		f.str("gasPrice", t)
		price = v
	}
	one, two := steps(`{"step":"` + name + `","txId":"id","comment":"c","tx":` + f.object() + `}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		step, ok := sc.Steps[0].(*mj.TxStep)
		nd.Assert(ok && step.TxIdent == "id" && step.Comment == "c" && step.ExpectedResult == nil, "a transaction step is one")
		tx := step.Tx
		kinds := []mj.TransactionType{mj.ScDeploy, mj.ScCall, mj.ScQuery, mj.Transfer, mj.ValidatorReward}
		nd.Assert(tx.Type == kinds[kind] && step.StepTypeName() == name, "a transaction is of its kind")
		nd.Assert(bytes.Equal(tx.From.Value, from) && bytes.Equal(tx.To.Value, to), "a transaction has its sender and receiver")
		nd.Assert(eqBig(tx.Value.Value, value) && tx.GasLimit.Value == limit && tx.GasPrice.Value == price, "a transaction has its value and gas")
		nd.Assert(tx.Function == function && bytes.Equal(tx.Code.Value, code), "a transaction has its function and code")
		nd.Assert((tx.ESDTValue != nil) == (esdt != nil), "a transaction has its tokens")
		if tx.ESDTValue != nil {
			nd.Assert(bytes.Equal(tx.ESDTValue.TokenIdentifier.Value, esdt) && tx.ESDTValue.Nonce.Value == nonce && eqBig(tx.ESDTValue.Value.Value, esdtValue), "a transaction has its tokens as given")
		}
		nd.Assert(len(tx.Arguments) == nargs, "a transaction has its arguments")
		if nargs > 0 {
			nd.Assert(bytes.Equal(tx.Arguments[0].Value, arg), "a transaction has its argument")
		}
		if nargs > 1 {
			nd.Assert(bytes.Equal(tx.Arguments[1].Value, []byte{1, 5}), "a transaction has its argument list")
		}
	}
	nd.Reach(name)
}

// O01_TxBad: what makes no sense in a transaction of a kind is refused.
func O01_TxBad() {
	parser := mjparse.NewParser(nil)
	wrong := [][2]string{
		{"scDeploy", `"from":"address:a","to":"sc:b"`},
		{"scDeploy", `"from":"address:a","function":"f"`},
		{"scCall", `"from":"address:a","to":"sc:b","contractCode":"str:c"`},
		{"scCall", `"from":"address:a","to":"0x00"`},
		{"scCall", `"from":"address:a","to":""`},
		{"scCall", `"from":"address:a","to":"sc:b","surprise":""`},
		{"scQuery", `"from":"address:a","to":"sc:b"`},
		{"scQuery", `"to":"sc:b","value":"1"`},
		{"scQuery", `"to":"sc:b","gasLimit":"1"`},
		{"scQuery", `"to":"sc:b","esdt":{}`},
		{"transfer", `"from":"address:a","to":"sc:b","function":"f"`},
		{"transfer", `"from":"address:a","to":"sc:b","arguments":["1"]`},
		{"transfer", `"from":"address:a","to":"sc:b","gasLimit":"-1x"`},
		{"validatorReward", `"from":"address:a","to":"sc:b"`},
		{"unknown", `"from":"address:a","to":"sc:b"`},
		{"scCall", `"from":"address:a","to":"sc:b","gasLimit":"0x010000000000000000"`},
	}
	w := wrong[nd.Choice("wrong", len(wrong))]
	_, err := parser.ParseScenarioStep(`{"step":"` + w[0] + `","tx":{` + w[1] + `}}`)
	nd.Assert(err != nil, "a transaction that makes no sense is refused")
	nd.Reach("refused")
}

// O01_StepBad: steps without what they need are refused.
func O01_StepBad() {
	parser := mjparse.NewParser(nil)
	wrong := []string{
		`{"step":"scCall"}`, `{"step":"scCall","expect":{}}`, `{"step":"transfer","expect":{}}`, `{"step":"transfer","expect":{},"tx":{}}`, `{}`,
		`{"step":"setState","accounts":[]}`, `{"step":"setState","accounts":{"":{}}}`, `{"step":"setState","accounts":{"0x01":{}}}`,
		`{"step":"checkState","accounts":{"str:x":{}}}`, `{"step":"checkState","accounts":"*"}`, `{"step":"dumpState","accounts":{}}`,
		`{"step":"setState","currentBlockInfo":{"blockRandomSeed":"0x00"}}`, `{"step":"externalSteps","paths":""}`, `[]`, `"scCall"`,
		`{"step":"setState","accounts":{"address:a":{"esdt":{"str:t":{"royalties":"10001"}}}}}`,
	}
	_, err := parser.ParseScenarioStep(wrong[nd.Choice("wrong", len(wrong))])
	nd.Assert(err != nil, "a step that makes no sense is refused")
	nd.Reach("refused")
}

// O01_Expect: the expected result is the one given.
func O01_Expect() {
	f := &fields{}
	special := 0
	if nd.Bool("leave out") {
		f.left = 1 + nd.Choice("which", 5)
	} else {
		special = nd.Choice("which", 6)
	}
	status := f.expectNumber("status", special)
	message := f.expect("message", special)
	gas := f.expectNumber("gas", special)
	refund := f.expectNumber("refund", special)
	ot, o := word("out")
	hasOut := f.put("out", `["`+ot+`","*"]`)
	logs := nd.Choice("logs", 5)
	dt, d := word("data")
	at, a := word("identifier")
	pt, p := word("topic")
	entry := `{"address":"address:a","identifier":"` + at + `","topics":["` + pt + `","*"],"data":"` + dt + `"}`
	switch logs {
	case 1:
		f.str("logs", "*")
	case 2:
		f.put("logs", `[`+entry+`]`)
	case 3:
		f.put("logs", `[]`)
	case 4:
		f.put("logs", `[{"identifier":"`+at+`","topics":[]},`+entry+`]`)
	}
	one, two := steps(`{"step":"scCall","tx":{"from":"address:a","to":"sc:b"},"expect":` + f.object() + `}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		r := sc.Steps[0].(*mj.TxStep).ExpectedResult
		nd.Assert(r != nil, "the expected result is there")
		status.isBig(r.Status, "status")
		message.isBytes(r.Message, "message")
		gas.isNumber(r.Gas, "gas")
		refund.isBig(r.Refund, "refund")
		if hasOut {
			nd.Assert(len(r.Out) == 2 && bytes.Equal(r.Out[0].Value, o) && !r.Out[0].IsStar && r.Out[1].IsStar, "the expected output is the one given")
		} else {
			nd.Assert(len(r.Out) == 0, "no output is expected where none is given")
		}
		nd.Assert(r.LogsStar == (logs <= 1), "logs are ignored where the scenario says so")
		count := []int{0, 0, 1, 0, 2}[logs]
		nd.Assert(len(r.Logs) == count, "the expected logs are those given")
		if count > 0 {
			l := r.Logs[count-1]
			nd.Assert(bytes.Equal(l.Identifier.Value, a) && bytes.Equal(l.Data.Value, d) && l.Address.Value[0] == 'a', "an expected log has its values")
			nd.Assert(len(l.Topics) == 2 && bytes.Equal(l.Topics[0].Value, p) && l.Topics[1].IsStar, "an expected log has its topics")
		}
		if count == 2 {
			l := r.Logs[0]
			nd.Assert(bytes.Equal(l.Identifier.Value, a) && len(l.Data.Value) == 0 && len(l.Address.Value) == 0 && len(l.Topics) == 0, "an expected log has only the values given")
			nd.Assert(!l.Data.IsStar && !l.Address.IsStar, "values left out are expected empty")
		}
	}
	nd.Reach("expected result")
}

// O01_Block: the state of the chain is the one given.
func O01_Block() {
	f := leaving(5)
	var w [4]uint64
	for i, k := range []string{"blockTimestamp", "blockNonce", "blockRound", "blockEpoch"} {
		t, v := num(k)
		if f.str(k, t) {
			w[i] = v
		}
	}
	st, s := digits("seed", 2, 16)
	seed := ""
	for i := 0; i < 48; i++ {
		seed += st
	}
	hasSeed := f.str("blockRandomSeed", "0x"+seed)
	ct, c := address("creator")
	at, a := contractAddress("new")
	nt, n := num("creator nonce")
	ht, h := word("hash")
	previous := nd.Bool("previous")
	key := "currentBlockInfo"
	if previous {
		key = "previousBlockInfo"
	}
	one, two := steps(`{"step":"setState","` + key + `":` + f.object() +
		`,"newAddresses":[{"creatorAddress":"` + ct + `","creatorNonce":"` + nt + `","newAddress":"` + at + `"}],"blockHashes":["` + ht + `","true"]}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		step := sc.Steps[0].(*mj.SetStateStep)
		b, other := step.CurrentBlockInfo, step.PreviousBlockInfo
		if previous {
			b, other = other, b
		}
		nd.Assert(b != nil && other == nil, "a step sets the blocks given")
		nd.Assert(b.BlockTimestamp.Value == w[0] && b.BlockNonce.Value == w[1] && b.BlockRound.Value == w[2] && b.BlockEpoch.Value == w[3], "a block has its numbers")
		nd.Assert((b.BlockRandomSeed != nil) == hasSeed, "a block has its seed")
		if hasSeed {
			nd.Assert(len(b.BlockRandomSeed.Value) == 48 && b.BlockRandomSeed.Value[47] == byte(s), "a block has its seed as given")
		}
		nd.Assert(len(step.NewAddressMocks) == 1, "the new addresses are those given")
		m := step.NewAddressMocks[0]
		nd.Assert(bytes.Equal(m.CreatorAddress.Value, c) && bytes.Equal(m.NewAddress.Value, a) && m.CreatorNonce.Value == n, "a new address is the one given")
		nd.Assert(len(step.BlockHashes) == 2 && bytes.Equal(step.BlockHashes[0].Value, h) && bytes.Equal(step.BlockHashes[1].Value, []byte{1}), "the block hashes are those given")
	}
	nd.Reach("block")
}

// O01_Scenario: a scenario has the head and the steps given, in their order.
func O01_Scenario() {
	parser := mjparse.NewParser(nil)
	s := nd.String("text", 2)
	nd.Assume(quotable(s))
	schedule := nd.Choice("schedule", 5)
	name := []string{"default", "dummy", "v1", "v2", "v3"}[schedule]
	gas := nd.Bool("check gas")
	gasText := "false"
	if gas {
		gasText = "true"
	}
	doc := `{"name":"` + s + `","comment":"c","checkGas":` + gasText + `,"gasSchedule":"` + name + `","steps":[` +
		`{"step":"externalSteps","path":"` + s + `","comment":"x"},{"step":"dumpState","comment":"` + s + `"},{"step":"dumpState"}]}`
	first, err := parser.ParseScenarioFile([]byte(doc))
	nd.Assert(err == nil, "a scenario is read")
	if err != nil {
		return
	}
	second, err := parser.ParseScenarioFile([]byte(mjwrite.ScenarioToJSONString(first)))
	nd.Assert(err == nil, "a written scenario is read")
	if err != nil {
		return
	}
	for _, sc := range []*mj.Scenario{first, second} {
		nd.Assert(sc.Name == s && sc.Comment == "c" && sc.CheckGas == gas && sc.GasSchedule == mj.GasSchedule(schedule), "a scenario has its head")
		nd.Assert(len(sc.Steps) == 3, "a scenario has its steps")
		ext, ok := sc.Steps[0].(*mj.ExternalStepsStep)
		nd.Assert(ok && ext.Path == s && ext.Comment == "x", "a scenario has its external steps")
		dump, ok := sc.Steps[1].(*mj.DumpStateStep)
		nd.Assert(ok && dump.Comment == s, "a scenario has its steps in order")
	}
	nd.Reach("scenario")
}
