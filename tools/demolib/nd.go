// Package verifnd is a stand-in with fixed values for the demonstrations.
package verifnd

import (
	"fmt"
	"math/big"
	"os"
)

// Fail ends the demonstration.
func Fail(msg string) {
	fmt.Println("FAILED:", msg)
	os.Exit(1)
}

// Assert ends the demonstration unless c holds.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

func Bool(string) bool                  { return false }
func U8(string) uint8                   { return 1 }
func U32(string) uint32                 { return 1 }
func U64(string) uint64                 { return 1 }
func Bytes(_ string, n int) []byte      { return make([]byte, n) }
func Choice(string, int) int            { return 0 }
func Big(string, int) *big.Int          { return big.NewInt(1) }
func Assume(bool)                       {}
func Reach(string)                      {}
func Tier() int                         { return 0 }
func MapOrder(bool)                     {}
func Observe(string, interface{})       {}
func U16(string) uint16                 { return 1 }
func I32(string) int32                  { return 1 }
func I64(string) int64                  { return 1 }
func BytesUpTo(_ string, n int) []byte  { return make([]byte, n) }
func String(_ string, n int) string     { return string(make([]byte, n)) }
func StringUpTo(_ string, n int) string { return string(make([]byte, n)) }
func BigSigned(string, int) *big.Int    { return big.NewInt(1) }
func ExactFormat()                      {}
func AllocLimit(string, int)            {}
func Symbolic() bool                    { return false }

// Panics says whether f panics.
func Panics(f func()) (panicked bool) {
	defer func() { panicked = recover() != nil }()
	f()
	return
}
