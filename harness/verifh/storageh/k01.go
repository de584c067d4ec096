package storageh

import (
	"bytes"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

func setLock(in *vmh.Inst, key []byte, until int64) {
	in.Do(func() {
		in.Put(0, key)
		api.XSetStorageLock(in.Ctx(), 0, int32(len(key)), until)
	})
}

func getLock(in *vmh.Inst, key []byte) int64 {
	r := int64(-5)
	in.Do(func() {
		in.Put(0, key)
		r = api.XGetStorageLock(in.Ctx(), 0, int32(len(key)))
	})
	return r
}

func isLocked(in *vmh.Inst, key []byte) int32 {
	r := int32(-5)
	in.Do(func() {
		in.Put(0, key)
		r = api.XIsStorageLocked(in.Ctx(), 0, int32(len(key)))
	})
	return r
}

func clearLock(in *vmh.Inst, key []byte) {
	in.Do(func() {
		in.Put(0, key)
		api.XClearStorageLock(in.Ctx(), 0, int32(len(key)))
	})
}

func locked(until int64, now uint64) int32 {
	if uint64(until) > now {
		return 1
	}
	return 0
}

// K01_Lock sets, queries and clears locks at any time.
func K01_Lock() {
	e := vmh.NewEnv(vmh.Opt{})
	now := nd.U64("now")
	nd.Assume(now < 1<<62)
	e.W.Time = now
	k1, k2 := nd.BytesUpTo("k1", 2), nd.BytesUpTo("k2", 2)
	nd.Assume(!reserved(k1) && !reserved(k2))
	t1, t2 := nd.I64("t1"), nd.I64("t2")
	nd.Assume(t1 >= 0 && t2 >= 0)
	v := nd.Bytes("v", 1)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Store(k1, v)
		nd.Assert(getLock(in, k1) == 0 && isLocked(in, k1) == 0, "a key is not locked before a lock is set")
		setLock(in, k1, t1)
		nd.Assert(getLock(in, k1) == t1, "the lock reported is the time it was set to")
		nd.Assert(isLocked(in, k1) == locked(t1, now), "a key is reported locked exactly until its time")
		if !bytes.Equal(k1, k2) {
			nd.Reach("other key")
			nd.Assert(getLock(in, k2) == 0 && isLocked(in, k2) == 0, "a lock affects no other key")
		}
		setLock(in, k2, t2)
		nd.Assert(getLock(in, k2) == t2, "the lock reported is the time it was set to last")
		clearLock(in, k2)
		nd.Assert(getLock(in, k2) == 0 && isLocked(in, k2) == 0, "a cleared lock is gone")
		if !bytes.Equal(k1, k2) {
			nd.Assert(getLock(in, k1) == t1, "clearing a lock affects no other key")
		}
		d, ok := in.Load(k1)
		nd.Assert(ok && bytes.Equal(d, v), "locks never change a stored value")
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "operations on locks succeed")
	nd.Reach("done")
}

// K01_Later queries a lock in a later transaction, in the same and in another contract.
func K01_Later() {
	e := vmh.NewEnv(vmh.Opt{})
	k := nd.BytesUpTo("k", 2)
	t := nd.I64("t")
	nd.Assume(t >= 0)
	clear := nd.Bool("clear")
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		setLock(in, k, t)
		if clear {
			clearLock(in, k)
		}
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "setting a lock succeeds")
	if out.ReturnCode != 0 {
		return
	}
	for _, u := range out.OutputAccounts[string(vmh.Alice)].StorageUpdates {
		e.AccA.Put(u.Offset, u.Data)
	}
	now := nd.U64("now")
	nd.Assume(now < 1<<62)
	e.W.Time = now
	want := t
	if clear {
		want = 0
	}
	other := nd.Bool("other")
	q := func(in *vmh.Inst) {
		w := want
		if other {
			w = 0
		}
		nd.Assert(getLock(in, k) == w, "a lock belongs to the stored state of its contract")
		nd.Assert(isLocked(in, k) == locked(w, now), "a lock is judged by the current block time")
	}
	e.A.Funcs["q"] = q
	e.B.Funcs["q"] = q
	to := vmh.Alice
	if other {
		to = vmh.Bob
	}
	out, err = e.Call(vmh.Input(to, "q", gas))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "querying a lock succeeds")
	nd.Reach("queried")
}
