package mandosh

import (
	"bytes"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
)

// O01_CheckValues: an expected value accepts what equals it, or everything.
func O01_CheckValues() {
	star := nd.Bool("any")
	silent := nd.Bool("unspecified")
	switch nd.Choice("kind", 4) {
	case 0:
		a, b := nd.BigSigned("expected", 72), nd.BigSigned("value", 72)
		c := mj.JSONCheckBigInt{Value: a, IsStar: star, Unspecified: silent}
		nd.Assert(c.Check(b) == (star || a.Cmp(b) == 0), "an expected big number accepts exactly itself")
		nd.Reach("big")
	case 1:
		a, b := nd.U64("expected"), nd.U64("value")
		c := mj.JSONCheckUint64{Value: a, IsStar: star, Unspecified: silent}
		nd.Assert(c.Check(b) == (star || a == b), "an expected number accepts exactly itself")
		nd.Reach("number")
	case 2:
		a, b := nd.BytesUpTo("expected", 3), nd.BytesUpTo("value", 3)
		c := mj.JSONCheckBytes{Value: a, IsStar: star, Unspecified: silent}
		nd.Assert(c.Check(b) == (star || bytes.Equal(a, b)), "expected bytes accept exactly themselves")
		nd.Reach("bytes")
	case 3:
		a, b := nd.U64("expected"), nd.Bool("value")
		c := mj.JSONCheckUint64{Value: a, IsStar: star, Unspecified: silent}
		nd.Assert(c.CheckBool(b) == (star || (a > 0) == b), "an expected truth accepts exactly itself")
		nd.Reach("bool")
	}
}

// O01_Convert: the numbers of an account set are those given, whatever they
// are.
func O01_Convert() {
	ae := bench()
	acct := &mj.Account{
		Address: text(named("address")),
		Nonce:   mj.JSONUint64{Value: nd.U64("nonce")},
		Balance: mj.JSONBigInt{Value: nd.Big("balance", 80)},
		Shard:   mj.JSONUint64{Value: uint64(nd.U32("shard"))},
	}
	frozen := nd.U64("frozen")
	last := nd.U64("last nonce")
	nonce := nd.U64("token nonce")
	amount := nd.Big("amount", 16)
	nd.Assume(nonce < 1<<16 && last < 1<<24)
	acct.ESDTData = []*mj.ESDTData{{
		TokenIdentifier: text([]byte("T")),
		Instances:       []*mj.ESDTInstance{{Nonce: mj.JSONUint64{Value: nonce}, Balance: mj.JSONBigInt{Value: amount}}},
		LastNonce:       mj.JSONUint64{Value: last},
		Frozen:          mj.JSONUint64{Value: frozen},
	}}
	got, err := arwenmandos.XConvert(acct, ae.World)
	nd.Assert(err == nil, "an account is set")
	if err != nil {
		return
	}
	nd.Assert(got.Nonce == acct.Nonce.Value && got.Balance.Cmp(acct.Balance.Value) == 0 && uint64(got.ShardID) == acct.Shard.Value, "an account set has the numbers given")
	data, err := got.GetFullMockESDTData()
	nd.Assert(err == nil, "the tokens of an account set can be read")
	if err != nil {
		return
	}
	t := data["T"]
	nd.Assert(t != nil && t.LastNonce == last, "a token set has its last nonce")
	if amount.Sign() > 0 && t != nil {
		nd.Assert(len(t.Instances) == 1, "a token set has its instance")
		if len(t.Instances) == 1 {
			i := t.Instances[0]
			nd.Assert(i.Value.Cmp(amount) == 0 && i.TokenMetaData.Nonce == nonce, "a token set has its balance and nonce")
			nd.Assert(builtInFunctions.ESDTUserMetadataFromBytes(i.Properties).Frozen == (frozen > 0), "a token set is frozen where the scenario says so")
			nd.Reach("instance")
		}
	}
	nd.Reach("set")
}

// O01_Long: the length of a nested value counts all of its bytes.
func O01_Long() {
	n := []int{127, 128, 255, 256, 300, 65536}[nd.Choice("length", 6)]
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = 'a'
	}
	raw[0] = nd.U8("first")
	nd.Assume(raw[0] != '|')
	want := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, raw...)
	denotes("nested:str:"+string(raw), want, "a long nested value")
}

// O01_LongNumber: so does that of a number.
func O01_LongNumber() {
	n := []int{127, 255, 256, 300}[nd.Choice("length", 4)]
	d := nd.Bytes("d", 1)
	nd.Assume(d[0] > 0 && d[0] < 10)
	hex := make([]byte, 2*n)
	for i := range hex {
		hex[i] = '1'
	}
	hex[0] = '0' + d[0]
	raw := make([]byte, n)
	for i := range raw {
		raw[i] = 0x11
	}
	raw[0] = d[0]<<4 | 1
	want := append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, raw...)
	denotes("biguint:0x"+string(hex), want, "a long number")
}

// O01_Space: white space between the parts of a document changes nothing, and
// anything else does.
func O01_Space() {
	tokens := []string{"{", "\"a\"", ":", "[", "\"b\"", ",", "\"c\"", "]", ",", "\"d\"", ":", "{", "}", "}"}
	at := nd.Choice("at", len(tokens)+1)
	c := nd.U8("c")
	white := c == ' ' || c == '\n' || c == '\r' || c == '\t'
	doc := ""
	for i, t := range tokens {
		if i == at {
			doc += string([]byte{c})
		}
		doc += t
	}
	if at == len(tokens) {
		doc += string([]byte{c})
	}
	got, err := oj.ParseOrderedJSON([]byte(doc))
	if white {
		nd.Assert(err == nil, "white space is allowed anywhere")
		if err != nil {
			return
		}
		m, ok := got.(*oj.OJsonMap)
		nd.Assert(ok && m.Size() == 2 && m.OrderedKV[0].Key == "a" && m.OrderedKV[1].Key == "d", "white space changes no key")
		l, ok := m.OrderedKV[0].Value.(*oj.OJsonList)
		nd.Assert(ok && len(l.AsList()) == 2, "white space changes no list")
		nd.Reach("white")
		return
	}
	nd.Assert(err != nil, "a stray character is refused")
	nd.Reach("stray")
}

// O01_StateProtected: only keys that start with the protected prefix are left
// to the protocol.
func O01_StateProtected() {
	ae := bench()
	kt, k := word("prefix")
	nd.Assume(k[0] != 'E')
	key := []string{kt + "ELRONDk", "str:ELRON" + string(k), "str:ELRONDk"}[nd.Choice("key", 3)]
	nd.Assume(k[0] != 'D')
	if !setState(ae, `"address:a":{"storage":{"`+key+`":"str:v"}}`) {
		return
	}
	verdict(ae, `"address:a":{"storage":{}}`, key == "str:ELRONDk")
}

// O01_StateInstances: the instances of a token are accepted exactly when they
// are those expected.
func O01_StateInstances() {
	ae := bench()
	at, a := digits("first", 1, 10)
	bt, b := digits("second", 1, 10)
	nd.Assume(a > 0 && b > 0)
	list := `{"nonce":"1","balance":"` + at + `"},{"nonce":"2","balance":"` + bt + `"}`
	if nd.Bool("instance and list") {
		list = `"nonce":"1","balance":"` + at + `","instances":[{"nonce":"2","balance":"` + bt + `"}]`
	} else {
		list = `"instances":[` + list + `]`
	}
	if !setState(ae, `"address:a":{"esdt":{"str:T":{`+list+`}}}`) {
		return
	}
	match := true
	items := ""
	add := func(nonce, balance string) {
		if items != "" {
			items += ","
		}
		items += `{"nonce":"` + nonce + `","balance":"` + balance + `"}`
	}
	if nd.Bool("expect first") {
		t, v := num("expected first")
		add("1", t)
		match = match && v == a
	} else {
		match = false
	}
	if nd.Bool("expect second") {
		add("2", bt)
	} else {
		match = false
	}
	if nd.Bool("expect third") {
		t, v := num("expected third")
		add("3", t)
		match = match && v == 0
	}
	verdict(ae, `"address:a":{"esdt":{"str:T":{"instances":[`+items+`]}}}`, match)
}

// O01_StateBare: tokens without any balance count by their roles and last
// nonce.
func O01_StateBare() {
	ae := bench()
	lt, l := num("last nonce")
	role := nd.Bool("role")
	rest := ""
	if role {
		rest = `,"roles":["r"]`
	}
	has := nd.Bool("has token")
	tokens := ""
	if has {
		tokens = `"str:T":{"lastNonce":"` + lt + `"` + rest + `}`
	} else {
		l, role = 0, false
	}
	if !setState(ae, `"address:a":{"esdt":{`+tokens+`}}`) {
		return
	}
	if nd.Bool("unexpected") {
		verdict(ae, `"address:a":{"esdt":{}}`, l == 0 && !role)
		return
	}
	f := &fields{}
	match := true
	switch nd.Choice("last", 3) {
	case 0:
		t, v := num("expected last nonce")
		f.str("lastNonce", t)
		match = v == l
	case 1:
		f.str("lastNonce", "*")
	case 2:
		match = l == 0
	}
	if nd.Bool("expect role") {
		f.put("roles", `["r"]`)
		match = match && role
	} else {
		match = match && !role
	}
	verdict(ae, `"address:a":{"esdt":{"str:T":`+f.object()+`}}`, match)
}

// O01_BadState: what cannot be meant is refused.
func O01_BadState() {
	parser := mjparse.NewParser(nil)
	word := nd.Bytes("c", 1)
	nd.Assume(word[0] != '|' && word[0] != '"' && word[0] != '\\')
	n := []int{0, 31, 33}[nd.Choice("length", 3)]
	short := ""
	for i := 0; i < n; i++ {
		short += "a"
	}
	if n > 0 {
		short = string(word) + short[1:]
	}
	good := "address:" + string(word)
	royalties, v := digits("royalties", 5, 10)
	bad := ""
	switch nd.Choice("what", 5) {
	case 0:
		bad = `"accounts":{"str:` + short + `":{}}`
	case 1:
		bad = `"accounts":{"address:a":{"esdt":{"str:T":{"creator":"str:` + short + `"}}}}`
	case 2:
		nd.Assume(v > 10000)
		bad = `"accounts":{"address:a":{"esdt":{"str:T":{"royalties":"` + royalties + `"}}}}`
	case 3:
		bad = `"accounts":{"address:a":{"nonce":"18446744073709551616"}}`
	case 4:
		bad = `"newAddresses":[{"creatorAddress":"` + good + `","creatorNonce":"0","newAddress":"str:` + short + `"}]`
	}
	_, err := parser.ParseScenarioStep(`{"step":"setState",` + bad + `}`)
	nd.Assert(err != nil, "a state that makes no sense is refused")
	nd.Reach("refused")
}

// O01_CheckTokenBare: an expectation of the last nonce and frozen state of a
// token is written as it was read.
func O01_CheckTokenBare() {
	f := &fields{}
	pick := func(key string) want {
		t, v := num(key)
		switch nd.Choice(key+" given", 3) {
		case 0:
			f.str(key, t)
			return want{given: true, number: v}
		case 1:
			f.str(key, "*")
			return want{given: true, any: true}
		}
		return want{}
	}
	balance := nd.Bool("balance")
	if balance {
		f.str("balance", "7")
	}
	last, frozen := pick("lastNonce"), pick("frozen")
	one, two := steps(`{"step":"checkState","accounts":{"address:a":{"esdt":{"str:T":` + f.object() + `}}}}`)
	for _, sc := range []*mj.Scenario{one, two} {
		if sc == nil {
			return
		}
		a := sc.Steps[0].(*mj.CheckStateStep).CheckAccounts.Accounts[0]
		nd.Assert(len(a.CheckESDTData) == 1, "the expected token is there")
		tk := a.CheckESDTData[0]
		nd.Assert(tk.LastNonce.Value == last.number && tk.LastNonce.IsStar == last.any, "the expected last nonce is the one given")
		nd.Assert(tk.Frozen.Value == frozen.number && tk.Frozen.IsStar == frozen.any && (len(tk.Frozen.Original) > 0) == frozen.given, "the expected frozen state is the one given")
		nd.Assert((len(tk.Instances) == 1) == balance, "the expected instance is the one given")
		if balance {
			nd.Assert(tk.Instances[0].Balance.Value.Cmp(big.NewInt(7)) == 0, "the expected balance is the one given")
		}
	}
	nd.Reach("same")
}
