// Package outputh: logs, return data and return codes.
package outputh

import (
	"bytes"
	"encoding/binary"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/elrondapi"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
)

const gas = uint64(1) << 40
const childGas = uint64(1) << 30

// write makes one output operation and overwrites the memory it used.
func write(in *vmh.Inst, m *vmh.Model, self []byte, tag string, max int) {
	if in.Stopped() {
		return
	}
	c := in.Ctx()
	switch nd.Choice(tag+".kind", 3) {
	case 0:
		d := nd.BytesUpTo(tag+".data", max+1)
		in.Do(func() {
			in.Put(50, d)
			elrondapi.XReturnData(c, 50, int32(len(d)))
		})
		m.Ret = append(m.Ret, d)
	case 1:
		n := nd.Choice(tag+".topics", 3)
		d := nd.BytesUpTo(tag+".data", max)
		var ts [][]byte
		in.Do(func() {
			for i := 0; i < n; i++ {
				t := nd.Bytes(tag+".topic", 32)
				in.Put(100+32*i, t)
				ts = append(ts, t)
			}
			in.Put(50, d)
			elrondapi.XWriteLog(c, 50, int32(len(d)), 100, int32(n))
		})
		m.Logs = append(m.Logs, vmh.MLog{Addr: self, Topics: ts, Data: d})
	case 2:
		n := nd.Choice(tag+".topics", 4)
		d := nd.BytesUpTo(tag+".data", max)
		var ts [][]byte
		in.Do(func() {
			off := 100
			for i := 0; i < n; i++ {
				t := nd.BytesUpTo(tag+".topic", max)
				binary.LittleEndian.PutUint32(in.Mem.B[4*i:], uint32(len(t)))
				in.Put(off, t)
				off += len(t)
				ts = append(ts, t)
			}
			in.Put(50, d)
			elrondapi.XWriteEventLog(c, int32(n), 0, 100, 50, int32(len(d)))
		})
		m.Logs = append(m.Logs, vmh.MLog{Addr: self, Topics: ts, Data: d})
	}
	in.Do(func() {
		for i := range in.Mem.B {
			in.Mem.B[i] = 0x5a
		}
	})
}

func finish(e *vmh.Env, m *vmh.Model, g uint64) {
	out, err := e.Call(vmh.Input(vmh.Alice, "f", g))
	vmh.NoCrash(out, err)
	nd.Observe("rc", int(out.ReturnCode))
	nd.Assert(out.ReturnCode == 0, "a contract that writes logs and results succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.CheckLogs(out)
	m.CheckReturn(out)
}

// L01_Order writes two entries.
func L01_Order() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		write(in, m, vmh.Alice, "1", 1+nd.Tier())
		write(in, m, vmh.Alice, "2", 1)
	}
	finish(e, m, gas)
}

// L01_Three_Thorough writes three.
func L01_Three_Thorough() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		write(in, m, vmh.Alice, "1", 1)
		write(in, m, vmh.Alice, "2", 1)
		write(in, m, vmh.Alice, "3", 1)
	}
	finish(e, m, gas)
}

// L01_Nested interleaves the entries of two contracts.
func L01_Nested() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	way := nd.Choice("way", 6)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		for i := 2 * nd.Choice("entries before", 2); i > 0; i-- {
			m.Effect(in, vmh.EffLog, "a1", vmh.As(vmh.Alice))
			m.Effect(in, vmh.EffFinish, "a1", vmh.As(vmh.Alice))
		}
		switch way {
		case 0:
			_, err := in.HostDest(vmh.Bob, big.NewInt(0), "g", childGas)
			nd.Assert(err == nil, "the nested call succeeds")
		case 1:
			nd.Assert(in.HostSame(vmh.Bob, big.NewInt(0), "g", childGas) == nil, "the nested call succeeds")
		default:
			kinds := []int{vmh.Dest, vmh.Same, vmh.Delegate, vmh.TransferExec}
			nd.Assert(in.Nested(kinds[way-2], int64(childGas), vmh.Bob, vmh.Zero32(), "g") == 0, "the nested call succeeds")
		}
		m.Effect(in, vmh.EffLog, "a2", vmh.As(vmh.Alice))
		m.Effect(in, vmh.EffFinish, "a2", vmh.As(vmh.Alice))
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		write(in, m, vmh.Bob, "b1", 1)
		write(in, m, vmh.Bob, "b2", 0)
	}
	finish(e, m, gas)
}

// L01_Read reads the results of a nested call back.
func L01_Read() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		own := nd.BytesUpTo("own", 1)
		in.Finish(own)
		m.Ret = append(m.Ret, own)
		in.Nested(vmh.Dest, int64(childGas), vmh.Bob, vmh.Zero32(), "g")
		c := in.Ctx()
		in.Do(func() {
			nd.Assert(int(elrondapi.XGetNumReturnData(c)) == len(m.Ret), "a contract counts the results so far")
			for i, d := range m.Ret {
				nd.Assert(int(elrondapi.XGetReturnDataSize(c, int32(i))) == len(d), "a contract reads the size of a result")
				for j := 90; j < 110; j++ {
					in.Mem.B[j] = 0x77
				}
				nd.Assert(int(elrondapi.XGetReturnData(c, int32(i), 100)) == len(d), "a contract reads the length of a result")
				nd.Assert(bytes.Equal(in.Mem.B[100:100+len(d)], d), "a contract reads a result")
				nd.Assert(in.Mem.B[99] == 0x77 && in.Mem.B[100+len(d)] == 0x77, "a contract reads a result and nothing more")
				in.Mem.B[100] = 1 // must not change the result
			}
		})
		nd.Reach("read")
	}
	e.B.Funcs["g"] = func(in *vmh.Inst) {
		for _, t := range []string{"r1", "r2"} {
			d := nd.BytesUpTo(t, 2)
			in.Finish(d)
			m.Ret = append(m.Ret, d)
		}
	}
	finish(e, m, gas)
}

// L01_Sharing checks that results are copies: a stored result is not changed by
// what the contract does with the same bytes later.
func L01_Sharing() {
	e := vmh.NewEnv(vmh.Opt{})
	m := vmh.NewModel(e.W)
	arg := nd.Bytes("arg", 2)
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		c := in.Ctx()
		in.Do(func() {
			elrondapi.XGetArgument(c, 0, 20)
			elrondapi.XReturnData(c, 20, 2)
			m.Ret = append(m.Ret, append([]byte{}, arg...))
			in.Mem.B[20] ^= 0xff
			elrondapi.XReturnData(c, 20, 2)
			m.Ret = append(m.Ret, []byte{arg[0] ^ 0xff, arg[1]})
			elrondapi.XBigIntGetUnsignedArgument(c, 0, 0)
			elrondapi.XBigIntFinishUnsigned(c, 0)
			v := big.NewInt(0).SetBytes(arg)
			m.Ret = append(m.Ret, v.Bytes())
			elrondapi.XBigIntAdd(c, 0, 0, 0)
			in.Mem.B[30] = 'k'
			elrondapi.XBigIntStorageStoreUnsigned(c, 30, 1, 0)
			elrondapi.XBigIntAdd(c, 0, 0, 0)
			m.Put(vmh.Alice, []byte("k"), big.NewInt(0).Add(v, v).Bytes())
		})
	}
	out, err := e.Call(vmh.Input(vmh.Alice, "f", gas, arg))
	vmh.NoCrash(out, err)
	nd.Assert(out.ReturnCode == 0, "the call succeeds")
	if out.ReturnCode != 0 {
		return
	}
	nd.Reach("compared")
	m.CheckReturn(out)
	m.CheckStorage(out)
}
