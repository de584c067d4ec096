package apih

import (
	"bytes"
	"math/big"
	"unsafe"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

// unsigned64 decodes a big-endian number and tells whether it fits 64 bits.
func unsigned64(b []byte) (uint64, bool) {
	v, fits := uint64(0), true
	for i, x := range b {
		if i < len(b)-8 && x != 0 {
			fits = false
		}
		v = v<<8 | uint64(x)
	}
	return v, fits
}

// signed64 decodes a two's complement number and tells whether it fits 64 bits.
func signed64(b []byte) (int64, bool) {
	if len(b) == 0 {
		return 0, true
	}
	ext := byte(0)
	v := uint64(0)
	if b[0]&0x80 != 0 {
		ext = 0xff
		v = ^uint64(0)
	}
	fits := true
	for i, x := range b {
		if i < len(b)-8 && x != ext {
			fits = false
		}
		v = v<<8 | uint64(x)
	}
	if len(b) > 8 && b[len(b)-8]&0x80 != ext&0x80 {
		fits = false
	}
	return int64(v), fits
}

// isMinUnsigned tells whether b is the minimal big-endian encoding of v.
func isMinUnsigned(b []byte, v uint64) bool {
	d, fits := unsigned64(b)
	return fits && d == v && (len(b) == 0 || b[0] != 0)
}

// isMinSigned tells whether b is the minimal two's complement encoding of v.
func isMinSigned(b []byte, v int64) bool {
	if v == 0 {
		return len(b) == 0
	}
	d, fits := signed64(b)
	if !fits || d != v || len(b) == 0 {
		return false
	}
	if len(b) >= 2 {
		if b[0] == 0 && b[1]&0x80 == 0 {
			return false
		}
		if b[0] == 0xff && b[1]&0x80 != 0 {
			return false
		}
	}
	return true
}

// number is a symbolic encoded number around the width that just fits.
func number(name string) []byte {
	lens := []int{0, 1, 2, 8, 9, 10}
	return nd.Bytes(name, lens[nd.Choice(name+".len", len(lens))])
}

// read runs a reading operation, which fails exactly when the number does not fit.
func read(b []byte, fits bool, want int64, prepare func(e *vmh.Env), f func(e *vmh.Env, in *vmh.Inst) int64) {
	e := vmh.NewEnv(vmh.Opt{})
	if prepare != nil {
		prepare(e)
	}
	out := insideEnv(e, [][]byte{{9}, b}, nil, func(e *vmh.Env, in *vmh.Inst) {
		r := f(e, in)
		if in.BP == 0 {
			nd.Assert(fits, "a number that does not fit 64 bits is refused")
			nd.Assert(r == want, "a number is read exactly as encoded")
			nd.Reach("read")
		}
	})
	if !fits {
		nd.Reach("refused")
	}
	nd.Assert((out.ReturnCode == vmcommon.Ok) == fits, "reading a number fails exactly when it does not fit")
}

// B02_Argument is reading arguments as 64-bit numbers.
func B02_Argument() {
	b := number("arg")
	switch nd.Choice("op", 3) {
	case 0:
		v, fits := unsigned64(b)
		read(b, fits, int64(v), nil, func(e *vmh.Env, in *vmh.Inst) int64 { return api.XSmallIntGetUnsignedArgument(in.Ctx(), 1) })
	case 1:
		v, fits := signed64(b)
		read(b, fits, v, nil, func(e *vmh.Env, in *vmh.Inst) int64 { return api.XSmallIntGetSignedArgument(in.Ctx(), 1) })
	case 2:
		v, fits := signed64(b)
		read(b, fits, v, nil, func(e *vmh.Env, in *vmh.Inst) int64 { return api.XInt64getArgument(in.Ctx(), 1) })
	}
}

// B02_StorageRead is reading stored values as 64-bit numbers.
func B02_StorageRead() {
	b := number("stored")
	key := func(e *vmh.Env) { e.AccA.Put([]byte("key"), b) }
	do := func(f func(c unsafe.Pointer, off, l int32) int64) func(e *vmh.Env, in *vmh.Inst) int64 {
		return func(e *vmh.Env, in *vmh.Inst) int64 {
			in.Put(5, []byte("key"))
			return f(in.Ctx(), 5, 3)
		}
	}
	switch nd.Choice("op", 3) {
	case 0:
		v, fits := unsigned64(b)
		read(nil, fits, int64(v), key, do(api.XSmallIntStorageLoadUnsigned))
	case 1:
		v, fits := signed64(b)
		read(nil, fits, v, key, do(api.XSmallIntStorageLoadSigned))
	case 2:
		v, fits := unsigned64(b)
		read(nil, fits, int64(v), key, do(api.XInt64storageLoad))
	}
}

// B02_StorageWrite is writing 64-bit numbers to storage and reading them back.
func B02_StorageWrite() {
	v := nd.I64("v")
	op := nd.Choice("op", 3)
	e, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		in.Put(5, []byte("key"))
		c := in.Ctx()
		back := int64(0)
		switch op {
		case 0:
			api.XSmallIntStorageStoreUnsigned(c, 5, 3, v)
			back = api.XSmallIntStorageLoadUnsigned(c, 5, 3)
		case 1:
			api.XSmallIntStorageStoreSigned(c, 5, 3, v)
			back = api.XSmallIntStorageLoadSigned(c, 5, 3)
		case 2:
			api.XInt64storageStore(c, 5, 3, v)
			back = api.XInt64storageLoad(c, 5, 3)
		}
		nd.Assert(back == v, "reading back a stored number gives the same number")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "storing a number succeeds")
	_ = e
	a := out.OutputAccounts[string(vmh.Alice)]
	nd.Assert(a != nil && a.StorageUpdates["key"] != nil, "a stored number is reported")
	if a == nil || a.StorageUpdates["key"] == nil {
		return
	}
	d := a.StorageUpdates["key"].Data
	if op == 1 {
		nd.Assert(isMinSigned(d, v), "a signed number is stored in minimal two's complement form")
	} else {
		nd.Assert(isMinUnsigned(d, uint64(v)), "an unsigned number is stored in minimal form")
	}
	nd.Reach("stored")
}

// B02_Finish is returning 64-bit numbers.
func B02_Finish() {
	v := nd.I64("v")
	op := nd.Choice("op", 5)
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		switch op {
		case 0:
			api.XSmallIntFinishUnsigned(c, v)
		case 1:
			api.XSmallIntFinishSigned(c, v)
		case 2:
			api.XInt64finish(c, v)
		case 3:
			e.H.BigInt().GetOne(4).SetUint64(uint64(v))
			api.XBigIntFinishUnsigned(c, 4)
		case 4:
			api.XBigIntSetInt64(c, 4, v)
			api.XBigIntFinishSigned(c, 4)
		}
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok && len(out.ReturnData) == 1, "returning a number returns one value")
	if len(out.ReturnData) != 1 {
		return
	}
	d := out.ReturnData[0]
	if op == 0 || op == 3 {
		nd.Assert(isMinUnsigned(d, uint64(v)), "an unsigned number is returned in minimal form")
	} else {
		nd.Assert(isMinSigned(d, v), "a signed number is returned in minimal two's complement form")
	}
	nd.Reach("returned")
}

// bigUnsigned and bigSigned decode numbers of any width.
func bigUnsigned(b []byte) *big.Int {
	v := n()
	for _, x := range b {
		v = n().Add(n().Mul(v, big.NewInt(256)), big.NewInt(int64(x)))
	}
	return v
}

func bigSigned(b []byte) *big.Int {
	v := bigUnsigned(b)
	if len(b) > 0 && b[0]&0x80 != 0 {
		v = n().Sub(v, n().Lsh(big.NewInt(1), uint(8*len(b))))
	}
	return v
}

// B02_BigRead is every way a big integer is read from bytes.
func B02_BigRead() {
	b := nd.BytesUpTo("bytes", 4)
	signed := nd.Bool("signed")
	from := nd.Choice("from", 3)
	if from == 1 && signed {
		return
	}
	want := bigUnsigned(b)
	if signed {
		want = bigSigned(b)
	}
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.Put([]byte("key"), b)
	out := insideEnv(e, [][]byte{{9}, b}, nil, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		bi := e.H.BigInt()
		bi.GetOne(3).SetInt64(-77)
		bi.GetOne(4).SetInt64(5)
		switch from {
		case 0:
			if signed {
				api.XBigIntGetSignedArgument(c, 1, 4)
			} else {
				api.XBigIntGetUnsignedArgument(c, 1, 4)
			}
		case 1:
			in.Put(5, []byte("key"))
			r := api.XBigIntStorageLoadUnsigned(c, 5, 3, 4)
			nd.Assert(r == int32(len(b)), "loading a stored number returns its length")
		case 2:
			in.Put(8, b)
			if signed {
				api.XBigIntSetSignedBytes(c, 4, 8, int32(len(b)))
			} else {
				api.XBigIntSetUnsignedBytes(c, 4, 8, int32(len(b)))
			}
		}
		nd.Assert(bi.GetOne(4).Cmp(want) == 0, "a big integer is read exactly as encoded")
		nd.Assert(bi.GetOne(3).Cmp(big.NewInt(-77)) == 0, "reading a number changes no other handle")
		nd.Reach("read")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "reading a big integer succeeds")
}

// B02_BigWrite is every way a big integer is written as bytes.
func B02_BigWrite() {
	v := nd.BigSigned("v", 33+16*nd.Tier())
	signed := nd.Bool("signed")
	to := nd.Choice("to", 3)
	if !signed {
		nd.Assume(v.Sign() >= 0)
	} else if to == 1 {
		return
	}
	var enc []byte
	back := n()
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		bi := e.H.BigInt()
		bi.GetOne(4).Set(v)
		switch to {
		case 0:
			var l, r int32
			for i := 20; i < 40; i++ {
				in.Mem.B[i] = 0xa5
			}
			if signed {
				l = api.XBigIntSignedByteLength(c, 4)
				r = api.XBigIntGetSignedBytes(c, 4, 24)
			} else {
				l = api.XBigIntUnsignedByteLength(c, 4)
				r = api.XBigIntGetUnsignedBytes(c, 4, 24)
			}
			nd.Assert(l == r && l >= 0 && l <= 12, "the length announced is the length written")
			enc = append(enc, in.Mem.B[24:24+l]...)
			for i := 20; i < 40; i++ {
				if i < 24 || i >= 24+int(l) {
					nd.Assert(in.Mem.B[i] == 0xa5, "nothing but the number is written")
				}
			}
			if signed {
				api.XBigIntSetSignedBytes(c, 5, 24, l)
			} else {
				api.XBigIntSetUnsignedBytes(c, 5, 24, l)
			}
			back.Set(bi.GetOne(5))
		case 1:
			in.Put(5, []byte("key"))
			api.XBigIntStorageStoreUnsigned(c, 5, 3, 4)
			api.XBigIntStorageLoadUnsigned(c, 5, 3, 5)
			back.Set(bi.GetOne(5))
		case 2:
			if signed {
				api.XBigIntFinishSigned(c, 4)
			} else {
				api.XBigIntFinishUnsigned(c, 4)
			}
			back.Set(v)
		}
		nd.Assert(bi.GetOne(4).Cmp(v) == 0, "writing a number leaves it unchanged")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "writing a big integer succeeds")
	nd.Assert(back.Cmp(v) == 0, "reading back what was written gives the same number")
	switch to {
	case 1:
		a := out.OutputAccounts[string(vmh.Alice)]
		if a == nil || a.StorageUpdates["key"] == nil {
			nd.Assert(v.Sign() == 0, "a stored number is reported")
			return
		}
		enc = a.StorageUpdates["key"].Data
	case 2:
		nd.Assert(len(out.ReturnData) == 1, "one value is returned")
		if len(out.ReturnData) != 1 {
			return
		}
		enc = out.ReturnData[0]
	}
	if signed {
		nd.Assert(bigSigned(enc).Cmp(v) == 0, "a signed number is written in two's complement")
		if len(enc) == 1 {
			nd.Assert(enc[0] != 0, "a signed number is written in its minimal form")
		}
		if len(enc) >= 2 {
			nd.Assert(!(enc[0] == 0 && enc[1]&0x80 == 0) && !(enc[0] == 0xff && enc[1]&0x80 != 0), "a signed number is written in its minimal form")
		}
	} else {
		nd.Assert(bigUnsigned(enc).Cmp(v) == 0, "an unsigned number is written in big-endian form")
		nd.Assert(len(enc) == 0 || enc[0] != 0, "an unsigned number is written in its minimal form")
	}
	nd.Reach("written")
}

// B02_Int64 is big integers as 64-bit numbers.
func B02_Int64() {
	w := nd.BigSigned("w", 66)
	v := nd.I64("v")
	_, out := inside(vmh.Opt{}, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		e.H.BigInt().GetOne(4).Set(w)
		lim := n().Lsh(big.NewInt(1), 63)
		fits := w.Cmp(lim) < 0 && w.Cmp(n().Neg(lim)) >= 0
		nd.Assert((api.XBigIntIsInt64(c, 4) == 1) == fits, "a number reports whether it fits 64 bits")
		if fits {
			nd.Assert(big.NewInt(api.XBigIntGetInt64(c, 4)).Cmp(w) == 0, "a number that fits is read exactly")
			nd.Reach("fits")
		}
		api.XBigIntSetInt64(c, 7, v)
		nd.Assert(api.XBigIntGetInt64(c, 7) == v && api.XBigIntIsInt64(c, 7) == 1, "a 64-bit number is kept exactly")
		h := api.XBigIntNew(c, v)
		nd.Assert(api.XBigIntGetInt64(c, h) == v, "a new number has the value given")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "64-bit conversions succeed")
}

// B02_Values is the values of the call and of the ledger as big integers.
func B02_Values() {
	v := nd.Big("value", 32)
	bal, tok := nd.Big("balance", 32), nd.Big("token", 32)
	e := vmh.NewEnv(vmh.Opt{})
	e.AccA.NotPayable = false
	e.AccB.Balance = bal
	e.W.Token = func(addr []byte, id []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
		if bytes.Equal(addr, vmh.Bob) && string(id) == "TOK-1" && nonce == 3 {
			return &esdt.ESDigitalToken{Value: tok}, nil
		}
		return &esdt.ESDigitalToken{Value: big.NewInt(0)}, nil
	}
	out := insideEnv(e, nil, v, func(e *vmh.Env, in *vmh.Inst) {
		c := in.Ctx()
		bi := e.H.BigInt()
		bi.GetOne(4).SetInt64(-9)
		in.Put(0, vmh.Bob)
		in.Put(32, []byte("TOK-1"))
		for i := 64; i < 160; i++ {
			in.Mem.B[i] = 0xa5
		}
		api.XBigIntGetCallValue(c, 4)
		nd.Assert(bi.GetOne(4).Cmp(v) == 0, "the call value is read exactly")
		r := api.XCallValue(c, 64)
		if v.Sign() == 0 {
			nd.Assert(r == 0 || r == 32, "a call value of zero is no bytes or 32 zeros")
		} else {
			nd.Assert(r == 32 && bytes.Equal(in.Mem.B[64:96], vmh.Bytes32(v)), "the call value is written as 32 bytes")
		}
		api.XBigIntGetExternalBalance(c, 0, 5)
		nd.Assert(bi.GetOne(5).Cmp(bal) == 0, "a balance is read exactly")
		api.XBigIntGetESDTExternalBalance(c, 0, 32, 5, 3, 6)
		nd.Assert(bi.GetOne(6).Cmp(tok) == 0, "a token balance is read exactly")
		l := api.XGetESDTBalance(c, 0, 32, 5, 3, 96)
		nd.Assert(bigUnsigned(in.Mem.B[96:96+l]).Cmp(tok) == 0, "a token balance is written exactly")
		nd.Assert(in.Mem.B[96+l] == 0xa5, "a token balance is written in its own bytes only")
		nd.Assert(v.Cmp(bi.GetOne(4)) == 0, "the call value is not changed by reading it")
		bi.GetOne(4).SetInt64(1)
		api.XBigIntGetCallValue(c, 7)
		nd.Assert(bi.GetOne(7).Cmp(v) == 0, "changing a number read from the call value does not change the call value")
		nd.Reach("read")
	})
	nd.Assert(out.ReturnCode == vmcommon.Ok, "reading values succeeds")
}
