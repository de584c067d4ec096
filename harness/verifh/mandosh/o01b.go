package mandosh

import (
	"math/big"

	mei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	mer "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// O01_WriteNumber: numbers written as text read back as the same numbers.
func O01_WriteNumber() {
	nd.ExactFormat()
	er := mer.ExprReconstructor{}
	v := uint64(nd.U16("v"))
	if nd.Bool("from bytes") {
		raw := nd.BytesUpTo("raw", 2)
		want := new(big.Int).SetBytes(raw).Bytes()
		denotes(er.Reconstruct(raw, mer.NumberHint), want, "bytes written as a number")
		return
	}
	if nd.Bool("uint64") {
		denotes(er.ReconstructFromUint64(v), minimal(v), "a machine number written")
		return
	}
	denotes(er.ReconstructFromBigInt(new(big.Int).SetUint64(v)), minimal(v), "a number written")
}

// O01_WriteText: texts written read back as the same bytes.
func O01_WriteText() {
	nd.ExactFormat()
	er := mer.ExprReconstructor{}
	s := nd.BytesUpTo("s", 3)
	denotes(er.Reconstruct(s, mer.StrHint), s, "a text written")
}

// O01_WriteAddress: addresses written read back as the same addresses.
func O01_WriteAddress() {
	nd.ExactFormat()
	er := mer.ExprReconstructor{}
	addr := make([]byte, 32)
	start := 0
	if nd.Bool("contract") {
		start = 8
	}
	n := []int{0, 1, 3, 29 - start, 31 - start}[nd.Choice("length", 5)]
	for i := start; i < 32; i++ {
		addr[i] = '_'
		if i-start < n {
			addr[i] = 'a'
		}
	}
	sym := nd.Bytes("name", 2)
	if n > 0 {
		addr[start+n-1] = sym[0]
	}
	if n > 1 {
		addr[start] = sym[1]
	}
	addr[31] = nd.U8("last")
	denotes(er.Reconstruct(addr, mer.AddressHint), addr, "an address written")
}

// O01_WriteUnknown: where nothing is known of a value, its hexadecimal form
// comes first.
func O01_WriteUnknown() {
	nd.ExactFormat()
	er := mer.ExprReconstructor{}
	s := nd.BytesUpTo("s", 3)
	text := er.Reconstruct(s, []mer.ExprReconstructorHint{mer.NoHint, mer.AddressHint, mer.CodeHint}[nd.Choice("hint", 3)])
	for i := 0; i < len(text); i++ {
		if text[i] == ' ' {
			text = text[:i]
			break
		}
	}
	denotes(text, s, "an unknown value written")
}

// O01_Tree: lists and maps stand for their parts one after the other, maps in
// the order of their keys.
func O01_Tree() {
	a, b, c := nd.String("a", 1), nd.String("b", 2), nd.String("c", 1)
	plain(a)
	plain(b)
	plain(c)
	str := func(s string) oj.OJsonObject { return &oj.OJsonString{Value: "str:" + s} }
	ei := mei.ExprInterpreter{}
	k1, k2 := nd.String("k1", 1), nd.StringUpTo("k2", 2)
	nd.Assume(k1 != k2)
	m := oj.NewMap()
	m.Put(k1, str(a))
	m.Put(k2, str(b))
	inMap := a + b
	if k2 < k1 {
		inMap = b + a
	}
	var tree oj.OJsonObject
	var want string
	switch nd.Choice("shape", 4) {
	case 0:
		tree, want = m, inMap
	case 1:
		tree, want = &oj.OJsonList{str(c), m, str(a)}, c+inMap+a
	case 2:
		tree, want = &oj.OJsonList{&oj.OJsonList{str(b)}, &oj.OJsonList{}, str(c)}, b+c
	case 3:
		outer := oj.NewMap()
		outer.Put("z", str(c))
		outer.Put("y", m)
		tree, want = outer, inMap+c
	}
	got, err := ei.InterpretSubTree(tree)
	nd.Assert(err == nil, "a tree of values is accepted")
	nd.Assert(string(got) == want, "a tree stands for its parts in order")
	nd.Reach("tree")
}

// O01_TreeBad: a part that stands for nothing spoils the whole.
func O01_TreeBad() {
	ei := mei.ExprInterpreter{}
	bad := &oj.OJsonString{Value: "u8:" + nd.String("d", 1) + "g"}
	good := &oj.OJsonString{Value: "true"}
	yes := oj.OJsonBool(nd.Bool("bool"))
	m := oj.NewMap()
	m.Put("a", good)
	m.Put("b", bad)
	trees := []oj.OJsonObject{&yes, &oj.OJsonList{good, bad}, &oj.OJsonList{bad, good}, m, &oj.OJsonList{&yes}}
	_, err := ei.InterpretSubTree(trees[nd.Choice("tree", 5)])
	nd.Assert(err != nil, "a tree with a part that stands for nothing is refused")
	nd.Reach("refused")
}

// O01_Keccak: the hash notation stands for the hash of its argument.
func O01_Keccak() {
	s := nd.String("s", 1)
	plain(s)
	want, err := mei.Keccak256([]byte(s + "x"))
	nd.Assert(err == nil && len(want) == 32, "a hash has 32 bytes")
	denotes("keccak256:str:"+s+"|str:x", want, "a hash")
}

// sameTree says whether two documents are the same.
func sameTree(a, b oj.OJsonObject) bool {
	switch x := a.(type) {
	case *oj.OJsonString:
		y, ok := b.(*oj.OJsonString)
		return ok && x.Value == y.Value
	case *oj.OJsonBool:
		y, ok := b.(*oj.OJsonBool)
		return ok && *x == *y
	case *oj.OJsonList:
		y, ok := b.(*oj.OJsonList)
		if !ok || len(*x) != len(*y) {
			return false
		}
		for i := range *x {
			if !sameTree((*x)[i], (*y)[i]) {
				return false
			}
		}
		return true
	case *oj.OJsonMap:
		y, ok := b.(*oj.OJsonMap)
		if !ok || len(x.OrderedKV) != len(y.OrderedKV) {
			return false
		}
		for i := range x.OrderedKV {
			if x.OrderedKV[i].Key != y.OrderedKV[i].Key || !sameTree(x.OrderedKV[i].Value, y.OrderedKV[i].Value) {
				return false
			}
		}
		return true
	}
	return false
}

// quotable is a text that can stand between quotes: every quote is escaped
// and the last backslash escapes something.
func quotable(s string) bool {
	escaped := false
	for i := 0; i < len(s); i++ {
		if escaped {
			escaped = false
		} else if s[i] == '\\' {
			escaped = true
		} else if s[i] == '"' {
			return false
		}
	}
	return !escaped
}

// O01_Document: a document that is written reads back as the same document.
func O01_Document() {
	nd.ExactFormat()
	s, k := nd.StringUpTo("s", 3), nd.StringUpTo("k", 2)
	nd.Assume(quotable(s) && quotable(k) && k != "k")
	str := &oj.OJsonString{Value: s}
	flag := oj.OJsonBool(nd.Bool("flag"))
	m := oj.NewMap()
	m.Put(k, str)
	empty := oj.NewMap()
	two := oj.NewMap()
	two.Put(k, &oj.OJsonList{})
	two.Put("k", m)
	docs := []oj.OJsonObject{
		m, &oj.OJsonList{str, str}, &oj.OJsonList{m, &oj.OJsonList{str}, empty}, two, &oj.OJsonList{&flag, str, &flag},
	}
	doc := docs[nd.Choice("doc", 5)]
	back, err := oj.ParseOrderedJSON([]byte(oj.JSONString(doc)))
	nd.Assert(err == nil, "a written document can be read")
	if err == nil {
		nd.Assert(sameTree(doc, back), "a written document reads back as it was")
		nd.Reach("document")
	}
}

// reader reads documents strictly.
type reader struct {
	in []byte
	at int
	ok bool
}

func (r *reader) space() {
	for r.at < len(r.in) && (r.in[r.at] == ' ' || r.in[r.at] == '\n' || r.in[r.at] == '\r' || r.in[r.at] == '\t') {
		r.at++
	}
}

func (r *reader) is(c byte) bool {
	r.space()
	if r.at < len(r.in) && r.in[r.at] == c {
		r.at++
		return true
	}
	return false
}

func (r *reader) text() string {
	if !r.is('"') {
		r.ok = false
		return ""
	}
	from := r.at
	for r.at < len(r.in) {
		c := r.in[r.at]
		r.at++
		if c == '\\' {
			r.at++
		} else if c == '"' {
			return string(r.in[from : r.at-1])
		}
	}
	r.ok = false
	return ""
}

func (r *reader) value() oj.OJsonObject {
	if r.is('[') {
		list := oj.OJsonList{}
		if r.is(']') {
			return &list
		}
		for r.ok {
			list = append(list, r.value())
			if r.is(']') {
				return &list
			}
			r.ok = r.ok && r.is(',')
		}
		return nil
	}
	if r.is('{') {
		m := oj.NewMap()
		if r.is('}') {
			return m
		}
		for r.ok {
			r.space()
			k := r.text()
			r.ok = r.ok && r.is(':')
			if !r.ok {
				return nil
			}
			m.Put(k, r.value())
			if r.is('}') {
				return m
			}
			r.ok = r.ok && r.is(',')
		}
		return nil
	}
	r.space()
	return &oj.OJsonString{Value: r.text()}
}

// read is the document that a text is, if it is one.
func read(in []byte) (oj.OJsonObject, bool) {
	r := &reader{in: in, ok: true}
	v := r.value()
	if !r.ok {
		return nil, false
	}
	r.space()
	return v, r.at == len(in)
}

// textBytes are bytes that matter in documents.
func textBytes(name string, n int) []byte {
	raw := nd.Bytes(name, n)
	for _, c := range raw {
		nd.Assume(c == '[' || c == ']' || c == '{' || c == '}' || c == ',' || c == ':' || c == '"' || c == '\\' || c == ' ' || c == 'a')
	}
	return raw
}

// asRead says that a text is read as the document it is, or refused.
func asRead(text []byte) {
	want, ok := read(text)
	got, err := oj.ParseOrderedJSON(text)
	if !ok {
		nd.Assert(err != nil, "what is no document is refused")
		nd.Reach("no document")
		return
	}
	nd.Assert(err == nil, "a document is read")
	if err == nil {
		nd.Assert(sameTree(want, got), "a document is read as it is")
		nd.Reach("a document")
	}
}

// O01_ReadList: texts around a list.
func O01_ReadList() {
	n := 1 + nd.Choice("n", 4+nd.Tier())
	asRead(append([]byte{'['}, textBytes("t", n)...))
}

// O01_ReadMap: texts in a map.
func O01_ReadMap() {
	n := 1 + nd.Choice("n", 3+nd.Tier())
	switch nd.Choice("where", 3) {
	case 0:
		asRead(append([]byte(`{"a":"b"`), textBytes("t", n)...))
	case 1:
		asRead(append(append([]byte(`{`), textBytes("t", n)...), `"a":"b"}`...))
	case 2:
		asRead(append(append([]byte(`{"`), textBytes("t", n)...), `"a":"b"}`...))
	}
}

// O01_ReadItems: texts between two items of a list, and after them.
func O01_ReadItems() {
	n := 1 + nd.Choice("n", 3+nd.Tier())
	t := append([]byte(`["a"`), textBytes("t", n)...)
	if nd.Bool("end") {
		asRead(t)
	} else {
		asRead(append(t, `"b"]`...))
	}
}

// O01_ReadString: texts as a whole document.
func O01_ReadString() {
	n := 1 + nd.Choice("n", 4)
	t := textBytes("t", n)
	nd.Assume(t[0] == '"' || t[0] == ' ')
	asRead(append(t, ' '))
}
