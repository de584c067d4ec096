package storageh

import (
	"bytes"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// writeCost is what the schedule assigns to a write: gas used and gas released.
func writeCost(old, new []byte, copyB, persist, store, release uint64) (use, free uint64) {
	o, n := uint64(len(old)), uint64(len(new))
	switch {
	case bytes.Equal(old, new):
		return n * copyB, 0
	case o == 0:
		return n * store, 0
	case n == 0:
		return 0, o * release
	case n > o:
		return o*persist + (n-o)*store, 0
	case n < o:
		return n * persist, (o - n) * release
	}
	return n * persist, 0
}

func costs(writes, maxLen int, keyLens []int, warm bool) {
	s := vmh.NewSched()
	copyB := s.Sym(vmh.Base, "DataCopyPerByte")
	persist := s.Sym(vmh.Base, "PersistPerByte")
	store := s.Sym(vmh.Base, "StorePerByte")
	release := s.Sym(vmh.Base, "ReleasePerByte")
	own := s.Sym(vmh.Elrond, "StorageStore")
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	key := bytes.Repeat([]byte{'k'}, keyLens[nd.Choice("keyLen", len(keyLens))])
	extra := uint64(0)
	if len(key) > 32 {
		extra = uint64(len(key)-32) * copyB
	}
	old := nd.BytesUpTo("old", maxLen)
	if len(old) > 0 {
		e.AccA.Put(key, old)
	}
	free := uint64(0)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		if warm && nd.Bool("readBefore") {
			in.Load(key)
		}
		for i := 0; i < writes; i++ {
			v := nd.BytesUpTo("new", maxLen)
			before := in.Points
			in.Store(key, v)
			u, f := writeCost(old, v, copyB, persist, store, release)
			paid := in.Points - before
			if len(v) == len(old) && len(v) > 0 && !bytes.Equal(v, old) {
				nd.Assert(paid == own+u+extra || paid == own+extra, "a write of the same length costs the bytes that stay, or (known) nothing")
				if nd.Bool("strict") {
					nd.Assert(paid == own+u+extra, "a write that keeps the length costs the bytes that stay")
				}
			} else {
				nd.Assert(paid == own+u+extra, "a write costs what the change of size costs")
			}
			free += f
			old = v
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "a write that is paid for succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("checked")
	nd.Observe("refund", out.GasRefund.Uint64())
	nd.Assert(out.GasRefund.IsUint64() && out.GasRefund.Uint64() == free, "a write releases the gas of the bytes it removes")
}

// S03_Once writes one value over one value.
func S03_Once() { costs(1, 3+nd.Tier(), []int{1}, true) }

// S03_Keys writes with keys around the length that is free of charge.
func S03_Keys() { costs(1, 1, []int{0, 31, 32, 33, 34}, true) }

// S03_Twice writes twice; the second write sees the first.
func S03_Twice() { costs(2+nd.Tier(), 2, []int{1}, false) }

// S03_Nested releases gas in a nested call and in its caller.
func S03_Nested() {
	s := vmh.NewSched()
	release := s.Sym(vmh.Base, "ReleasePerByte")
	e := vmh.NewEnv(vmh.Opt{GasMap: s.M})
	e.AccA.Put([]byte("k"), []byte{1, 2, 3})
	e.AccB.Put([]byte("k"), []byte{4, 5})
	kind := nd.Choice("kind", 2)
	before, after := nd.Bool("before"), nd.Bool("after")
	calleeDeletes, fails := nd.Bool("calleeDeletes"), nd.Bool("fails")
	want := uint64(0)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		if before {
			in.Store([]byte("k"), []byte{1, 2})
			want += release
		}
		if kind == 0 {
			in.HostDest(vmh.Bob, vmh.BigOf(0), "g", 1<<30)
		} else {
			in.HostSame(vmh.Bob, vmh.BigOf(0), "g", 1<<30)
		}
		if after {
			in.Store([]byte("m"), []byte{1, 2})
			in.Store([]byte("m"), []byte{1})
			want += release
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		if calleeDeletes {
			old := uint64(2)
			if kind == 1 {
				old = 3
				if before {
					old = 2
				}
			}
			in.Store([]byte("k"), nil)
			if !fails {
				want += old * release
			}
		}
		if fails {
			in.Signal([]byte("x"))
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", 1<<50))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the caller succeeds")
	if out.ReturnCode != 0 {
		return
	}
	got := out.GasRefund.Uint64()
	if before && !fails && kind == 0 {
		nd.Assert(got == want || got+release == want, "a call tree releases nothing but what its writes release")
		nd.Assert(got == want, "gas released before a nested call is not lost by it")
		return
	}
	nd.Assert(got == want, "the gas released by a call tree adds up")
}
