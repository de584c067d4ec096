package host

import (
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto"
)

// XSetCrypto replaces the cryptography of a host (overlay only).
func XSetCrypto(h arwen.VMHost, c crypto.VMCrypto) {
	h.(*vmHost).cryptoHook = c
}
