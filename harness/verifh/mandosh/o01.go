// Package mandosh checks that test scenarios mean what they say.
package mandosh

import (
	"bytes"
	"math/big"

	mei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// denotes says what a notation stands for.
func denotes(text string, want []byte, what string) {
	ei := mei.ExprInterpreter{}
	got, err := ei.InterpretString(text)
	nd.Assert(err == nil, what+": accepted")
	if err == nil {
		nd.Assert(bytes.Equal(got, want), what+": denotes its bytes")
		nd.Reach(what)
	}
}

// refusedText says that a notation stands for nothing.
func refusedText(text string, what string) {
	ei := mei.ExprInterpreter{}
	_, err := ei.InterpretString(text)
	nd.Assert(err != nil, what+": refused")
	nd.Reach(what + " refused")
}

// digits gives n symbolic digits of a base as text and their value.
func digits(name string, n int, base uint64) (string, uint64) {
	raw := nd.Bytes(name, n)
	text := make([]byte, n)
	value := uint64(0)
	for i := range raw {
		d := uint64(raw[i])
		nd.Assume(d < base)
		value = value*base + d
		c := byte('0') + raw[i]
		if base == 16 {
			c = hexDigit(raw[i], nd.Bool(name+"-upper"))
		}
		text[i] = c
	}
	return string(text), value
}

func hexDigit(d byte, upper bool) byte {
	if d < 10 {
		return '0' + d
	}
	if upper {
		return 'A' + d - 10
	}
	return 'a' + d - 10
}

// minimal is the shortest big-endian form of a number.
func minimal(v uint64) []byte {
	var out []byte
	for s := 56; s >= 0; s -= 8 {
		b := byte(v >> uint(s))
		if len(out) > 0 || b != 0 {
			out = append(out, b)
		}
	}
	return out
}

// fixed is the big-endian form of a given width.
func fixed(v uint64, width int) []byte {
	out := make([]byte, width)
	for i := range out {
		out[width-1-i] = byte(v >> uint(8*i))
	}
	return out
}

// group puts a separator somewhere into the digits.
func group(text string) string {
	seps := []string{"", "_", ","}
	s := seps[nd.Choice("separator", 3)]
	at := nd.Choice("at", len(text)+1)
	return text[:at] + s + text[at:]
}

// O01_Decimal: decimal numbers.
func O01_Decimal() {
	n := 1 + nd.Choice("n", 4+nd.Tier())
	text, v := digits("d", n, 10)
	denotes(group(text), minimal(v), "a decimal number")
}

// O01_Hex: hexadecimal numbers keep their leading zeros.
func O01_Hex() {
	n := nd.Choice("n", 6)
	text, v := digits("d", n, 16)
	prefix := []string{"0x", "0X"}[nd.Choice("prefix", 2)]
	denotes(prefix+text, fixed(v, (n+1)/2), "a hexadecimal number")
}

// O01_Binary: binary numbers.
func O01_Binary() {
	n := 1 + nd.Choice("n", 10)
	text, v := digits("d", n, 2)
	prefix := []string{"0b", "0B"}[nd.Choice("prefix", 2)]
	denotes(prefix+text, minimal(v), "a binary number")
}

// O01_Signed: signed numbers in the shortest two's complement form.
func O01_Signed() {
	n := 1 + nd.Choice("n", 4+nd.Tier())
	text, v := digits("d", n, 10)
	if nd.Bool("minus") {
		denotes("-"+text, shortest(new(big.Int).Neg(new(big.Int).SetUint64(v))), "a negative number")
	} else {
		denotes("+"+text, shortest(new(big.Int).SetUint64(v)), "a number with a plus sign")
	}
}

// shortest is the shortest two's complement form: no bytes for zero, and no
// byte more than the sign needs.
func shortest(v *big.Int) []byte {
	if v.Sign() == 0 {
		return []byte{}
	}
	for w := uint(1); ; w++ {
		half := new(big.Int).Lsh(big.NewInt(1), 8*w-1)
		if v.Cmp(half) < 0 && v.Cmp(new(big.Int).Neg(half)) >= 0 {
			return twosOf(v, int(w))
		}
	}
}

// twosOf is the two's complement form of a width that is enough.
func twosOf(v *big.Int, width int) []byte {
	x := v
	if v.Sign() < 0 {
		x = new(big.Int).Add(v, new(big.Int).Lsh(big.NewInt(1), uint(8*width)))
	}
	b := x.Bytes()
	out := make([]byte, width)
	copy(out[width-len(b):], b)
	return out
}

// O01_Width: numbers of a fixed width.
func O01_Width() {
	i := nd.Choice("width", 4)
	width := 1 << uint(i)
	signed := nd.Bool("signed")
	name := []string{"8:", "16:", "32:", "64:"}[i]
	n := []int{3, 5, 5, 5}[i]
	text, v := digits("d", n, 10)
	if !signed {
		fitting("u"+name+text, new(big.Int).SetUint64(v), width, v>>uint(8*width) == 0, "an unsigned number of fixed width")
		return
	}
	half := uint64(1) << uint(8*width-1)
	if nd.Bool("minus") {
		fitting("i"+name+"-"+text, new(big.Int).Neg(new(big.Int).SetUint64(v)), width, v <= half, "a negative number of fixed width")
	} else {
		fitting("i"+name+"+"+text, new(big.Int).SetUint64(v), width, v < half, "a positive number of fixed width")
	}
}

func fitting(text string, v *big.Int, width int, fits bool, what string) {
	if fits {
		denotes(text, twosOf(v, width), what)
	} else {
		refusedText(text, what)
	}
}

// O01_WidthHex: the same with the digits of other bases.
func O01_WidthHex() {
	i := nd.Choice("width", 4)
	width := 1 << uint(i)
	name := []string{"8:", "16:", "32:", "64:"}[i]
	if nd.Bool("hex") {
		n := 1 + nd.Choice("n", 5)
		text, v := digits("d", n, 16)
		if (n+1)/2 > width && v>>uint(8*width) == 0 {
			// Leading zeros are part of a hexadecimal number.
			return
		}
		fitting("u"+name+"0x"+text, new(big.Int).SetUint64(v), width, v>>uint(8*width) == 0, "a hexadecimal number of fixed width")
		return
	}
	text, v := digits("d", 9, 2)
	fitting("u"+name+"0b"+text, new(big.Int).SetUint64(v), width, v>>uint(8*width) == 0, "a binary number of fixed width")
}

// O01_Prefixed: numbers and values that carry their length.
func O01_Prefixed() {
	if nd.Bool("nested") {
		s := nd.StringUpTo("s", 3)
		plain(s)
		denotes("nested:str:"+s, append(fixed(uint64(len(s)), 4), s...), "a value with its length")
		return
	}
	text, v := digits("d", 1+nd.Choice("n", 4), 10)
	m := minimal(v)
	denotes("biguint:"+text, append(fixed(uint64(len(m)), 4), m...), "a number with its length")
}

// plain is a text without the sign that joins values.
func plain(s string) {
	for i := 0; i < len(s); i++ {
		nd.Assume(s[i] != '|')
	}
}

// O01_Strings: texts stand for themselves.
func O01_Strings() {
	s := nd.StringUpTo("s", 4)
	plain(s)
	prefix := []string{"str:", "\x60\x60", "''"}[nd.Choice("prefix", 3)]
	denotes(prefix+s, []byte(s), "a text")
}

// O01_Joined: values joined by | stand for their bytes one after the other.
func O01_Joined() {
	var text string
	var want []byte
	n := 2 + nd.Choice("n", 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			text += "|"
		}
		switch nd.Choice("part", 4) {
		case 0:
			s := nd.String("s", 2)
			plain(s)
			text, want = text+"str:"+s, append(want, s...)
		case 1:
			t, v := digits("d", 2, 10)
			text, want = text+"u16:"+t, append(want, fixed(v, 2)...)
		case 2:
			t, v := digits("h", 2, 16)
			text, want = text+"0x"+t, append(want, byte(v))
		case 3:
			text, want = text+"true", append(want, 1)
		}
	}
	denotes(text, want, "values joined")
}

// O01_Fixed: the notations without parameters.
func O01_Fixed() {
	switch nd.Choice("which", 3) {
	case 0:
		denotes("true", []byte{1}, "true")
	case 1:
		denotes("false", []byte{}, "false")
	case 2:
		denotes("", []byte{}, "nothing")
	}
}

// O01_Address: addresses of users and contracts, with and without shard.
func O01_Address() {
	zeros, prefix := 0, "address:"
	if nd.Bool("contract") {
		zeros, prefix = 8, "sc:"
	}
	room := 32 - zeros
	n := []int{0, 1, 3, room - 2, room - 1, room, room + 1}[nd.Choice("length", 7)]
	name := make([]byte, n)
	sym := nd.Bytes("name", 3)
	for i := range name {
		name[i] = 'a'
	}
	for i := 0; i < 3 && i < n; i++ {
		name[n-1-i] = sym[i]
		nd.Assume(sym[i] != '|' && sym[i] != '#')
	}
	want := make([]byte, 32)
	for i := zeros; i < 32; i++ {
		want[i] = '_'
		if i-zeros < n {
			want[i] = name[i-zeros]
		}
	}
	text := prefix + string(name)
	if nd.Bool("shard") {
		shard, v := digits("shard", 2, 16)
		want[31] = byte(v)
		text += "#" + shard
	}
	denotes(text, want, "an address")
}

// O01_BadShard: what is no shard is refused.
func O01_BadShard() {
	s := nd.StringUpTo("shard", 3)
	hex := len(s) == 2
	for i := 0; i < len(s); i++ {
		c := s[i]
		nd.Assume(c != '|')
		isHex := c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
		hex = hex && isHex
	}
	nd.Assume(!hex)
	refusedText("address:a#"+s, "a bad shard")
}

// O01_Total: whatever stands after a prefix, the answer is bytes or an error.
func O01_Total() {
	s := nd.StringUpTo("s", 2+nd.Tier())
	prefix := []string{"", "u8:", "i8:", "i64:", "biguint:", "nested:", "nested:i16:", "address:", "sc:", "0x", "0b", "-", "+", "-0b", "u16:0b", "str:a|", "i32:-"}[nd.Choice("prefix", 17)]
	ei := mei.ExprInterpreter{}
	_, err := ei.InterpretString(prefix + s)
	if err == nil {
		nd.Reach("bytes")
	} else {
		nd.Reach("error")
	}
}

// O01_Negative: a number without sign is never taken from a negative one.
func O01_Negative() {
	text, n := digits("d", 2, 2)
	sign := []string{"-", "+"}[nd.Choice("sign", 2)]
	prefix := []string{"u8:", "biguint:", "-", "+"}[nd.Choice("prefix", 4)]
	base := []string{"", "0b", "0x"}[nd.Choice("base", 3)]
	t := prefix + base + sign + text
	if base == "" && sign == "+" {
		return
	}
	if base == "" {
		nd.Assume(n != 0) // -0 is 0
	}
	refusedText(t, "a second sign")
}
