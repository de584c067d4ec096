package apih

import (
	"bytes"
	"encoding/binary"

	api "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// memEnv is a world whose contracts have a small memory of known bytes.
func memEnv(n int) *vmh.Env {
	e := vmh.NewEnv(vmh.Opt{})
	e.W.MemLen, e.W.PageLen, e.W.MaxPages = n, 8, 2
	return e
}

// fill gives every byte of the memory its own value.
func fill(in *vmh.Inst) []byte {
	for i := range in.Mem.B {
		in.Mem.B[i] = byte(0x40 + i)
	}
	return append([]byte{}, in.Mem.B...)
}

// at is the byte of a memory that reads as zero past its end.
func at(m []byte, i int64) byte {
	if i >= 0 && i < int64(len(m)) {
		return m[i]
	}
	return 0
}

// loaded checks one answer of a read.
func loaded(m []byte, off, l int64, got []byte, ok bool) {
	if l < 0 {
		nd.Assert(!ok, "a read of negative length is refused")
		return
	}
	if l > 0 && off < 0 {
		nd.Assert(!ok, "a read at a negative offset is refused")
		return
	}
	if l > 0 && off+l <= int64(len(m)) {
		nd.Assert(ok, "a read inside the memory succeeds")
	}
	if !ok {
		nd.Reach("refused")
		return
	}
	nd.Assert(int64(len(got)) == l, "a read returns as many bytes as asked for")
	if int64(len(got)) != l {
		return
	}
	for i := int64(0); i < l; i++ {
		nd.Assert(got[i] == at(m, off+i), "a read returns the bytes asked for, and zeros past the end")
	}
	nd.Reach("read")
}

// bounded keeps the lengths the machine must handle inside the bound.
func bounded(l int32, max int32) {
	nd.Assume(l <= max)
}

// M02_Load is one read at any offset.
func M02_Load() {
	off, l := nd.I32("off"), nd.I32("len")
	bounded(l, 6)
	e := memEnv(12)
	insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		m := fill(in)
		got, err := e.H.Runtime().MemLoad(off, l)
		loaded(m, int64(off), int64(l), got, err == nil)
		nd.Assert(bytes.Equal(in.Mem.B, m), "a read changes no memory")
		if len(got) > 0 {
			got[0] ^= 0xff
			nd.Assert(bytes.Equal(in.Mem.B, m), "what was read is a copy")
		}
	})
}

// M02_LoadLong is a read that reaches past the end by any distance within the bound.
func M02_LoadLong() {
	off := nd.I32("off")
	l := int32(10 + 20*nd.Choice("len", 2))
	e := memEnv(12)
	insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		m := fill(in)
		got, err := e.H.Runtime().MemLoad(off, l)
		loaded(m, int64(off), int64(l), got, err == nil)
	})
}

// M02_Store is one write at any offset.
func M02_Store() {
	off := nd.I32("off")
	data := nd.BytesUpTo("data", 3)
	if nd.Bool("long") {
		data = append(data, bytes.Repeat([]byte{9}, 9)...)
	}
	e := memEnv(12)
	e.W.MaxPages = nd.Choice("pages", 2)
	insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		m := fill(in)
		err := e.H.Runtime().MemStore(off, data)
		after := in.Mem.B
		nd.Assert(len(after) >= len(m) && len(after) <= len(m)+8 && in.Mem.Grown <= 1, "a write grows the memory by at most one page")
		if len(after) < len(m) {
			return
		}
		if err != nil {
			nd.Reach("refused")
			for i := range after {
				nd.Assert(after[i] == at(m, int64(i)), "a refused write changes no byte")
			}
			if off >= 0 {
				nd.Assert(int64(off)+int64(len(data)) > 12, "a write inside the memory succeeds")
			}
			return
		}
		if len(data) > 0 {
			nd.Assert(off >= 0, "a write at a negative offset is refused")
			nd.Assert(int64(off)+int64(len(data)) <= int64(len(after)), "a write past the end is refused")
		}
		nd.Reach("written")
		for i := range after {
			want := at(m, int64(i))
			if j := int64(i) - int64(off); j >= 0 && j < int64(len(data)) {
				want = data[j]
			}
			nd.Assert(after[i] == want, "a write stores exactly the bytes given")
		}
		if int64(off)+int64(len(data)) <= 12 {
			nd.Assert(len(after) == 12, "a write inside the memory does not grow it")
		}
	})
}

// M02_StoreLoad is a write followed by a read anywhere.
func M02_StoreLoad() {
	o1, o2 := nd.I32("o1"), nd.I32("o2")
	nd.Assume(o1 >= 0 && o1 < 12 && o2 >= 0 && o2 < 14)
	d := nd.Bytes("data", 2)
	e := memEnv(12)
	insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		fill(in)
		if e.H.Runtime().MemStore(o1, d) != nil {
			return
		}
		m := append([]byte{}, in.Mem.B...)
		got, err := e.H.Runtime().MemLoad(o2, 2)
		loaded(m, int64(o2), 2, got, err == nil)
		if o1 == o2 {
			nd.Assert(err == nil && bytes.Equal(got, d), "what was written is read back")
		}
	})
}

// M02_Multiple is reading several blocks at once.
func M02_Multiple() {
	off := nd.I32("off")
	k := nd.Choice("count", 3+nd.Tier())
	ls := make([]int32, k)
	for i := range ls {
		ls[i] = nd.I32("len")
		bounded(ls[i], 3)
	}
	e := memEnv(8)
	insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		m := fill(in)
		got, err := e.H.Runtime().MemLoadMultiple(off, ls)
		ok := err == nil
		if ok {
			nd.Assert(len(got) == k, "as many blocks are returned as asked for")
			if len(got) != k {
				return
			}
		}
		o := int64(off)
		all := true
		for i, l := range ls {
			alone, e1 := e.H.Runtime().MemLoad(int32(o), l)
			if e1 != nil {
				all = false
				break
			}
			if ok {
				nd.Assert(bytes.Equal(alone, got[i]), "a block is the one loading it alone would give")
				loaded(m, o, int64(l), got[i], true)
			}
			o += int64(l)
		}
		nd.Assert(ok == all, "several blocks are refused exactly when one of them is")
		nd.Assert(bytes.Equal(in.Mem.B, m), "a read changes no memory")
	})
}

// M02_Api is memory as the contract API uses it: an argument copied in, a
// return value copied out.
func M02_Api() {
	src, dst := nd.I32("src"), nd.I32("dst")
	l := nd.I32("len")
	bounded(l, 3)
	arg := nd.Bytes("arg", 2)
	e := memEnv(10)
	var m []byte
	wrote, finished := false, false
	out := insideEnv(e, [][]byte{arg}, nil, func(e *vmh.Env, in *vmh.Inst) {
		m = fill(in)
		in.Do(func() {
			r := api.XGetArgument(in.Ctx(), 0, dst)
			wrote = in.BP == 0
			if wrote {
				nd.Assert(r == 2, "an argument reports its length")
			}
		})
		for i := range in.Mem.B {
			want := at(m, int64(i))
			if j := int64(i) - int64(dst); wrote && j >= 0 && j < 2 {
				want = arg[j]
			}
			nd.Assert(in.Mem.B[i] == want, "an argument is copied to its place and nowhere else")
		}
		m = append([]byte{}, in.Mem.B...)
		in.Do(func() { api.XReturnData(in.Ctx(), src, l) })
		finished = !in.Stopped()
	})
	if dst < 0 {
		nd.Assert(!wrote, "an argument is not copied to a negative offset")
	}
	if !wrote {
		nd.Assert(out.ReturnCode != vmcommon.Ok, "a refused write fails the execution")
		return
	}
	if l < 0 || (src < 0 && l != 0) {
		nd.Assert(!finished && out.ReturnCode != vmcommon.Ok, "a return value outside the memory fails the execution")
		return
	}
	if out.ReturnCode == vmcommon.Ok {
		nd.Reach("returned")
		nd.Assert(len(out.ReturnData) == 1, "one value is returned")
		if len(out.ReturnData) == 1 {
			loaded(m, int64(src), int64(l), out.ReturnData[0], true)
		}
	}
}

// M02_Arguments is the argument block of a nested call.
func M02_Arguments() {
	lo, do := nd.I32("lengthsOffset"), nd.I32("dataOffset")
	count := nd.I32("count")
	nd.Assume(count <= 2)
	l0, l1 := nd.I32("l0"), nd.I32("l1")
	bounded(l0, 2)
	bounded(l1, 2)
	nd.Assume(lo == 72 || lo < 0 || lo > 2147483640)
	nd.Assume(do < 0 || do >= 80 || do > 2147483640)
	e := vmh.NewEnv(vmh.Opt{})
	e.W.MemLen, e.W.PageLen = 88, 16
	var got [][]byte
	called := false
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		called = true
		for _, a := range e.H.Runtime().Arguments() {
			got = append(got, append([]byte{}, a...))
		}
	}
	var m []byte
	out := insideEnv(e, nil, nil, func(e *vmh.Env, in *vmh.Inst) {
		fill(in)
		in.Put(0, vmh.Bob)
		in.Put(32, vmh.Zero32())
		in.Put(64, []byte("g"))
		binary.LittleEndian.PutUint32(in.Mem.B[72:], uint32(l0))
		binary.LittleEndian.PutUint32(in.Mem.B[76:], uint32(l1))
		m = append([]byte{}, in.Mem.B...)
		in.Do(func() { api.XExecuteOnDestContext(in.Ctx(), 100000, 0, 32, 64, 1, count, lo, do) })
	})
	bad := count < 0 || (count > 0 && lo < 0) || (count > 0 && l0 < 0) || (count > 1 && l1 < 0) ||
		(do < 0 && (count > 0 && l0 > 0 || count > 1 && l1 > 0))
	if bad {
		nd.Assert(out.ReturnCode != vmcommon.Ok, "arguments outside the memory fail the call")
		nd.Assert(!called, "a call with bad arguments does not happen")
		return
	}
	if !called {
		return
	}
	nd.Reach("called")
	nd.Assert(int32(len(got)) == count, "the callee gets as many arguments as given")
	if int32(len(got)) != count {
		return
	}
	o := int64(do)
	for i := range got {
		l := int64(binary.LittleEndian.Uint32([]byte{at(m, int64(lo)+4*int64(i)), at(m, int64(lo)+4*int64(i)+1), at(m, int64(lo)+4*int64(i)+2), at(m, int64(lo)+4*int64(i)+3)}))
		loaded(m, o, l, got[i], true)
		o += l
	}
}
