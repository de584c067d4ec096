package vmh

import (
	"errors"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	arwenHost "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
)

// Crypto is a cryptography stand-in that records its arguments.
type Crypto struct {
	Op            string
	Key, Msg, Sig []byte
	Calls         int
	Result        []byte
	Invalid       bool
}

func (c *Crypto) hash(op string, d []byte) ([]byte, error) {
	c.Calls++
	c.Op, c.Msg = op, append([]byte{}, d...)
	if c.Invalid {
		return nil, errors.New("hash failed")
	}
	return append([]byte{}, c.Result...), nil
}

func (c *Crypto) verify(op string, k, m, s []byte) error {
	c.Calls++
	c.Op, c.Key, c.Msg, c.Sig = op, append([]byte{}, k...), append([]byte{}, m...), append([]byte{}, s...)
	if c.Invalid {
		return errors.New("invalid signature")
	}
	return nil
}

// Sha256 implements the hasher.
func (c *Crypto) Sha256(d []byte) ([]byte, error) { return c.hash("sha256", d) }

// Keccak256 implements the hasher.
func (c *Crypto) Keccak256(d []byte) ([]byte, error) { return c.hash("keccak256", d) }

// Ripemd160 implements the hasher.
func (c *Crypto) Ripemd160(d []byte) ([]byte, error) { return c.hash("ripemd160", d) }

// VerifyEd25519 implements the signer.
func (c *Crypto) VerifyEd25519(k, m, s []byte) error { return c.verify("ed25519", k, m, s) }

// VerifyBLS implements the signer.
func (c *Crypto) VerifyBLS(k, m, s []byte) error { return c.verify("bls", k, m, s) }

// VerifySecp256k1 implements the signer.
func (c *Crypto) VerifySecp256k1(k, m, s []byte) error { return c.verify("secp256k1", k, m, s) }

// UseCrypto installs a stand-in.
func UseCrypto(h arwen.VMHost, c *Crypto) { arwenHost.XSetCrypto(h, c) }
