package storageh

import (
	"bytes"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

// writers is every operation that writes storage.
var writers = []struct {
	name string
	run  func(in *vmh.Inst, kl int32) int32
	val  []byte
}{
	{"storageStore", func(in *vmh.Inst, kl int32) int32 {
		in.Put(100, []byte{1, 44})
		return api.XStorageStore(in.Ctx(), 0, kl, 100, 2)
	}, []byte{1, 44}},
	{"smallIntStorageStoreUnsigned", func(in *vmh.Inst, kl int32) int32 {
		return api.XSmallIntStorageStoreUnsigned(in.Ctx(), 0, kl, 300)
	}, []byte{1, 44}},
	{"smallIntStorageStoreSigned", func(in *vmh.Inst, kl int32) int32 {
		return api.XSmallIntStorageStoreSigned(in.Ctx(), 0, kl, 300)
	}, []byte{1, 44}},
	{"int64storageStore", func(in *vmh.Inst, kl int32) int32 {
		return api.XInt64storageStore(in.Ctx(), 0, kl, 300)
	}, []byte{1, 44}},
	{"bigIntStorageStoreUnsigned", func(in *vmh.Inst, kl int32) int32 {
		in.W.Host.BigInt().GetOne(9).SetInt64(300)
		return api.XBigIntStorageStoreUnsigned(in.Ctx(), 0, kl, 9)
	}, []byte{1, 44}},
	{"storageStore of nothing", func(in *vmh.Inst, kl int32) int32 {
		return api.XStorageStore(in.Ctx(), 0, kl, 100, 0)
	}, nil},
	{"int64storageStore of zero", func(in *vmh.Inst, kl int32) int32 {
		return api.XInt64storageStore(in.Ctx(), 0, kl, 0)
	}, nil},
	{"smallIntStorageStoreUnsigned of zero", func(in *vmh.Inst, kl int32) int32 {
		return api.XSmallIntStorageStoreUnsigned(in.Ctx(), 0, kl, 0)
	}, nil},
	{"bigIntStorageStoreUnsigned of zero", func(in *vmh.Inst, kl int32) int32 {
		return api.XBigIntStorageStoreUnsigned(in.Ctx(), 0, kl, 9)
	}, nil},
}

const arwenPrefix = "ARWEN@"

func reserved(key []byte) bool {
	return bytes.HasPrefix(key, []byte(vmh.ProtectedPrefix)) || bytes.HasPrefix(key, []byte(arwenPrefix))
}

// anyKey is any key of a length around the reserved prefixes.
func anyKey(name string) []byte {
	return nd.BytesUpTo(name, 7+nd.Tier())
}

// S02_Reserved writes any key with any operation.
func S02_Reserved() {
	e := vmh.NewEnv(vmh.Opt{})
	w := writers[nd.Choice("op", len(writers))]
	key := anyKey("key")
	old := nd.BytesUpTo("old", 1)
	if len(old) > 0 {
		e.AccA.Put(key, old)
	}
	st := int32(0)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Do(func() {
			in.Put(0, key)
			st = w.run(in, int32(len(key)))
		})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	if reserved(key) {
		nd.Reach("reserved")
		nd.Assert(out.ReturnCode != 0, "writing a reserved key fails the execution: "+w.name)
		if out.ReturnCode != 0 {
			vmh.CheckFailed(out)
		}
		return
	}
	nd.Reach("ordinary")
	nd.Assert(out.ReturnCode == 0, "a key outside the reserved ranges is writable: "+w.name)
	if out.ReturnCode != 0 {
		return
	}
	nd.Assert(st == statusOf(old, w.val), "the status of a write follows from the old and the new value: "+w.name)
	u := out.OutputAccounts[string(vmh.Alice)].StorageUpdates[string(key)]
	if u == nil && bytes.Equal(old, w.val) {
		return
	}
	nd.Assert(u != nil && bytes.Equal(u.Data, w.val) && bytes.Equal(u.Offset, key), "the write is reported under its key: "+w.name)
}

// S02_AfterLock writes a reserved key after operations of the lock family, and
// after failed reads and writes.
func S02_AfterLock() {
	e := vmh.NewEnv(vmh.Opt{})
	key := anyKey("key")
	first := nd.Choice("first", 6)
	lk := nd.BytesUpTo("lockKey", 2)
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		in.Do(func() {
			in.Put(0, []byte("ELROND"))
			api.XSetStorageLock(in.Ctx(), 0, 6, 5)
		})
	}
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Do(func() {
			in.Put(0, lk)
			switch first {
			case 0:
				api.XSetStorageLock(in.Ctx(), 0, int32(len(lk)), int64(nd.U8("until")))
			case 1:
				api.XClearStorageLock(in.Ctx(), 0, int32(len(lk)))
			case 2:
				api.XIsStorageLocked(in.Ctx(), 0, int32(len(lk)))
			case 3:
				// locks twice, the second time the same
				api.XSetStorageLock(in.Ctx(), 0, int32(len(lk)), 7)
				api.XSetStorageLock(in.Ctx(), 0, int32(len(lk)), 7)
			case 4:
				// a lock that fails in another contract
				in.HostDest(vmh.Bob, vmh.BigOf(0), "g", 1<<20)
			case 5:
				// a lock that fails in another contract, in this context
				in.HostSame(vmh.Bob, vmh.BigOf(0), "g", 1<<20)
			}
		})
		in.Store(key, []byte{1})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	if reserved(key) {
		nd.Reach("reserved")
		nd.Assert(out.ReturnCode != 0, "a reserved key stays protected after the use of locks")
		return
	}
	nd.Reach("ordinary")
	nd.Assert(out.ReturnCode == 0, "an ordinary key stays writable after the use of locks")
}

// S02_Nested writes any key from a nested call of each kind.
func S02_Nested() {
	e := vmh.NewEnv(vmh.Opt{})
	key := anyKey("key")
	kind := nd.Choice("kind", 6)
	e.B.Funcs["g"] = func(in *vmh.Inst) { in.Store(key, []byte{1}) }
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Nested(kind, 1<<30, vmh.Bob, vmh.Zero32(), "g")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	written := 0
	for _, oa := range out.OutputAccounts {
		for k := range oa.StorageUpdates {
			nd.Assert(!reserved([]byte(k)) || len(oa.StorageUpdates[k].Data) == 0, "no nested call writes a reserved key")
			written++
		}
	}
	if reserved(key) {
		nd.Reach("reserved")
		nd.Assert(out.ReturnCode != 0 || kind == vmh.TransferExec || kind == vmh.ReadOnly, "a nested call that writes a reserved key fails")
		return
	}
	nd.Reach("ordinary")
	nd.Assert(out.ReturnCode == 0, "a nested call writes ordinary keys")
	nd.Assert(written == 1 || kind == vmh.ReadOnly, "the write of a nested call is reported")
}

// S02_Bookkeeping tries to write the entries the machine keeps for locks and
// pending calls through an ordinary write.
func S02_Bookkeeping() {
	e := vmh.NewEnv(vmh.Opt{})
	lk := nd.BytesUpTo("lockKey", 2)
	t := nd.U8("until")
	nd.Assume(t > 0)
	v := nd.U8("value")
	nd.Assume(v != t)
	got := int64(-1)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Do(func() {
			in.Put(0, lk)
			api.XSetStorageLock(in.Ctx(), 0, int32(len(lk)), int64(t))
		})
		k := append(append([]byte{}, lk...), []byte("ARWEN@TIMELOCK")...)
		in.Store(k, []byte{v})
		in.Do(func() {
			in.Put(0, lk)
			got = api.XGetStorageLock(in.Ctx(), 0, int32(len(lk)))
		})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode != 0 || got == int64(t), "an ordinary write never changes the machine's own entry for a lock")
}
