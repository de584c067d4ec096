// Package verifnd gives harnesses nondeterministic inputs. Under the symbolic
// engine every function here is interpreted; natively the same harness replays
// one concrete assignment.
package verifnd

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"strconv"
	"syscall"
	"unicode/utf8"
)

// Input is one recorded nondeterministic value.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

// Obs is one observation.
type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

// State is the native replay state.
type State struct {
	Inputs     []Input
	Pos        int
	Failures   []string
	Obs        []Obs
	TierN      int
	Diverged   string
	AssumeFail bool
}

// S is the current replay state.
var S *State

// Stop ends a replay.
type Stop struct{ Why string }

func next(kind, name string) string {
	if S.Pos >= len(S.Inputs) {
		S.Diverged = "inputs exhausted at " + name
		panic(Stop{S.Diverged})
	}
	in := S.Inputs[S.Pos]
	S.Pos++
	if in.Kind != kind || in.Name != name {
		S.Diverged = "input mismatch: want " + kind + " " + name + ", have " + in.Kind + " " + in.Name
		panic(Stop{S.Diverged})
	}
	return in.Val
}

func u(kind, name string) uint64 {
	v, err := strconv.ParseUint(next(kind, name), 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

func i(kind, name string) int64 {
	v, err := strconv.ParseInt(next(kind, name), 10, 64)
	if err != nil {
		panic(err)
	}
	return v
}

// Bool is any boolean.
func Bool(name string) bool { return u("bool", name) != 0 }

// U8 is any byte.
func U8(name string) uint8 { return uint8(u("u8", name)) }

// U16 is any uint16.
func U16(name string) uint16 { return uint16(u("u16", name)) }

// U32 is any uint32.
func U32(name string) uint32 { return uint32(u("u32", name)) }

// U64 is any uint64.
func U64(name string) uint64 { return u("u64", name) }

// I32 is any int32.
func I32(name string) int32 { return int32(i("i32", name)) }

// I64 is any int64.
func I64(name string) int64 { return i("i64", name) }

// Bytes is any n bytes.
func Bytes(name string, n int) []byte {
	b, err := hex.DecodeString(next("bytes", name))
	if err != nil || len(b) != n {
		S.Diverged = "bad bytes for " + name
		panic(Stop{S.Diverged})
	}
	r := make([]byte, n)
	copy(r, b)
	return r
}

// BytesUpTo is any byte string of at most max bytes.
func BytesUpTo(name string, max int) []byte {
	n := Choice(name+".len", max+1)
	return Bytes(name, n)
}

// String is any string of n bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// StringUpTo is any string of at most max bytes.
func StringUpTo(name string, max int) string { return string(BytesUpTo(name, max)) }

// Choice is any value in [0, n).
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(i("choice", name))
}

func bigOf(name string) *big.Int {
	s := next("big", name)
	v, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad big " + s)
	}
	return v
}

// Big is any integer in [0, 2^bits).
func Big(name string, bits int) *big.Int { return bigOf(name) }

// BigSigned is any integer in [-2^(bits-1), 2^(bits-1)).
func BigSigned(name string, bits int) *big.Int { return bigOf(name) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		S.AssumeFail = true
		panic(Stop{"assumption"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fail(msg)
	}
}

// fail records a violation, unless the run already left the recorded one (the
// code under test may recover the panic that ends it).
func fail(msg string) {
	if S.Diverged == "" && !S.AssumeFail {
		S.Failures = append(S.Failures, msg)
	}
}

// Fail is Assert(false, msg) and ends the run.
func Fail(msg string) {
	fail(msg)
	panic(Stop{"fail"})
}

// Reach declares a point that must be reachable.
func Reach(label string) {}

// Tier is 0 for quick, 1 for thorough.
func Tier() int { return S.TierN }

// MapOrder makes map iteration order nondeterministic.
func MapOrder(on bool) {}

// ExactFormat makes numbers in formatted text exact, where they would be left
// open otherwise.
func ExactFormat() {}

// AllocLimit makes an allocation of more bytes than n a violation of what. Natively the
// process may use little more than that in all, so that it ends where it would
// otherwise take all the memory of the machine.
func AllocLimit(what string, n int) {
	l := syscall.Rlimit{Cur: uint64(n) + 768<<20, Max: uint64(n) + 768<<20}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &l)
}

// Symbolic tells whether the symbolic engine runs the harness.
func Symbolic() bool { return false }

// Observe records a value computed by the code under test.
func Observe(label string, v interface{}) {
	if S.Diverged == "" && !S.AssumeFail {
		S.Obs = append(S.Obs, Obs{label, show(v)})
	}
}

func show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(v)
	case int:
		return strconv.FormatUint(uint64(v), 10)
	case int8:
		return strconv.FormatUint(uint64(uint8(v)), 10)
	case int16:
		return strconv.FormatUint(uint64(uint16(v)), 10)
	case int32:
		return strconv.FormatUint(uint64(uint32(v)), 10)
	case int64:
		return strconv.FormatUint(uint64(v), 10)
	case uint8:
		return strconv.FormatUint(uint64(v), 10)
	case uint16:
		return strconv.FormatUint(uint64(v), 10)
	case uint32:
		return strconv.FormatUint(uint64(v), 10)
	case uint64:
		return strconv.FormatUint(v, 10)
	case []byte:
		return fmt.Sprintf("x%x", v)
	case string:
		return fmt.Sprintf("x%x", v)
	case *big.Int:
		if v == nil {
			return "nil"
		}
		return v.String()
	}
	return fmt.Sprintf("?%T", v)
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			r := recover()
			if s, ok := r.(Stop); ok {
				panic(s)
			}
		}
	}()
	f()
	panicked = false
	return
}

// JSONText is a text after a trip through a JSON document: bytes that are not
// UTF-8 are replaced. (The symbolic side calls it for json.Marshal.)
func JSONText(s string) string {
	var b []byte
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		if r == utf8.RuneError && n == 1 {
			b = append(b, "\uFFFD"...)
		} else {
			b = append(b, s[i:i+n]...)
		}
		i += n
	}
	return string(b)
}
