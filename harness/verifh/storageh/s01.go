// Package storageh: storage semantics.
package storageh

import (
	"bytes"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

const gas = uint64(1) << 40

// statusOf is the documented status of a write.
func statusOf(before, after []byte) int32 {
	switch {
	case bytes.Equal(before, after):
		return 0
	case len(before) == 0:
		return 2
	case len(after) == 0:
		return 3
	}
	return 1
}

// S01_History runs any sequence of writes and reads over any keys.
func S01_History() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	k0 := nd.Bytes("ledgerKey", 1)
	e.AccA.Put(k0, nd.BytesUpTo("ledgerVal", 1))
	steps := 3
	if nd.Tier() > 0 {
		steps = 4
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		for i := 0; i < steps; i++ {
			k := nd.Bytes("key", 1)
			if nd.Bool("write") {
				v := nd.BytesUpTo("val", 1)
				want := statusOf(m.Get(vmh.Alice, k), v)
				st := in.Store(k, v)
				nd.Assert(st == want, "the status of a write follows from the old and the new value")
				m.Put(vmh.Alice, k, v)
			} else {
				v, ok := in.Load(k)
				nd.Assert(ok, "a read succeeds")
				nd.Assert(bytes.Equal(v, m.Get(vmh.Alice, k)), "a read returns the last value written")
			}
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "storage operations on ordinary keys succeed")
	nd.Reach("checked")
	m.CheckStorage(out)
}

// twoContracts runs a history over two contracts, nested calls of each kind and
// reads of the other contract's storage.
func twoContracts(kind, steps int) {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	readable := nd.Bool("readable")
	if readable {
		e.AccA.CodeMeta = []byte{4, 0}
		e.AccB.CodeMeta = []byte{4, 0}
	} else {
		e.AccA.CodeMeta = []byte{0, 0}
		e.AccB.CodeMeta = []byte{0, 0}
	}
	e.AccA.Put([]byte("k"), nd.Bytes("ledgerA", 1))
	e.AccB.Put([]byte("k"), nd.Bytes("ledgerB", 1))
	step := func(in *vmh.Inst, stor, other []byte) {
		k := []byte{byte('k' + nd.Choice("key", 2))}
		switch nd.Choice("step", 3) {
		case 0:
			v := nd.BytesUpTo("val", 1)
			want := statusOf(m.Get(stor, k), v)
			nd.Assert(in.Store(k, v) == want, "the status of a write follows from the old and the new value")
			m.Put(stor, k, v)
		case 1:
			v, ok := in.Load(k)
			nd.Assert(ok && bytes.Equal(v, m.Get(stor, k)), "a read returns the last value written by the same contract")
		case 2:
			v := in.LoadFrom(other, k)
			if readable {
				nd.Assert(bytes.Equal(v, m.Get(other, k)), "a read of a readable contract returns its current value")
			} else {
				nd.Assert(len(v) == 0, "the storage of a contract that is not readable stays hidden")
			}
		}
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		step(in, vmh.Alice, vmh.Bob)
		in.Nested(kind, 1<<30, vmh.Bob, vmh.Zero32(), "g")
		for i := 1; i < steps; i++ {
			step(in, vmh.Alice, vmh.Bob)
		}
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		if kind == vmh.Same {
			step(in, vmh.Alice, vmh.Bob)
		} else {
			step(in, vmh.Bob, vmh.Alice)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "storage operations on ordinary keys succeed")
	nd.Reach("checked")
	m.CheckStorage(out)
}

// S01_NestedDest has the other contract run in its own context.
func S01_NestedDest() { twoContracts(vmh.Dest, 2) }

// S01_NestedSame has the other contract run in this context.
func S01_NestedSame() { twoContracts(vmh.Same, 2) }

// S01_NestedByCaller has the other contract run on behalf of the user.
func S01_NestedByCaller_Thorough() { twoContracts(vmh.DestByCaller, 2) }

// S01_Longer_Thorough is a longer history.
func S01_Longer_Thorough() { twoContracts(vmh.Dest, 3) }
