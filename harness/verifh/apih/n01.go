package apih

import (
	"errors"
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
)

const apiMem = 200

// apiEnv is a world in which every operation of the table succeeds with the
// values given there.
func apiEnv() *vmh.Env {
	e := vmh.NewEnv(vmh.Opt{})
	e.W.MemLen = apiMem
	vmh.UseCrypto(e.H, &vmh.Crypto{Result: []byte{1, 2}})
	e.W.Token = func([]byte, []byte, uint64) (*esdt.ESDigitalToken, error) {
		return &esdt.ESDigitalToken{Value: big.NewInt(3), Properties: []byte{1}, TokenMetaData: &esdt.MetaData{
			Name: []byte("n"), Hash: []byte("h"), URIs: [][]byte{[]byte("u")}, Creator: vmh.User, Attributes: []byte("a")}}, nil
	}
	e.W.Builtin = func(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
		return &vmcommon.VMOutput{GasRemaining: in.GasProvided, GasRefund: big.NewInt(0)}, nil
	}
	e.W.Hashes = func(nonce uint64) ([]byte, error) {
		if nonce > 10 {
			return nil, errors.New("no such block")
		}
		return make([]byte, 32), nil
	}
	e.AccA.Put([]byte("key"), []byte{1, 2, 3})
	e.AccB.Owner = vmh.Alice
	e.AccB.Put([]byte("key"), []byte{4, 5})
	e.B.Funcs["g"] = func(in *vmh.Inst) { in.Finish([]byte{5}) }
	e.B.Funcs["init"] = func(in *vmh.Inst) {}
	e.A.Funcs["callBack"] = func(in *vmh.Inst) {}
	e.A.Funcs["again"] = func(in *vmh.Inst) { in.Finish([]byte{7}) }
	return e
}

// lay puts what the operations read into the memory.
func lay(e *vmh.Env, in *vmh.Inst) {
	in.Put(0, vmh.Bob)
	in.Put(32, vmh.Zero32())
	in.Put(64, []byte("keyxxxg"))
	in.Put(72, []byte{2, 0, 0, 0, 'a', 'b', 0, 0})
	in.Put(80, []byte{'B', 'B', 'B', 'B', 5, 2})
	b := e.H.BigInt()
	b.GetOne(1).SetInt64(0x1234)
	b.GetOne(2).SetInt64(0x77)
}

// weird is any value a parameter of the kind may take within the bounds.
func weird(name, kind string) int64 {
	switch kind {
	case "o":
		v := nd.I32(name)
		nd.Assume(v < 0 || (v >= apiMem-3 && v <= apiMem+3) || v > 0x7fffffff-40)
		return int64(v)
	case "l":
		v := nd.I32(name)
		nd.Assume(v <= 3)
		return int64(v)
	case "n":
		v := nd.I32(name)
		nd.Assume(v <= 2)
		return int64(v)
	case "g":
		return nd.I64(name)
	case "b":
		v := nd.I32(name)
		nd.Assume(v <= 40)
		return int64(v)
	}
	return int64(nd.I32(name))
}

// tryOp runs one operation with the parameters given and then another transaction.
func tryOp(t entry, p []int64) (*vmcommon.VMOutput, bool) {
	e := apiEnv()
	done := false
	e.A.Funcs["f"] = func(in *vmh.Inst) {
		in.Finish([]byte{8})
		lay(e, in)
		in.Do(func() { t.run(in.Ctx(), p) })
		done = !in.Stopped()
	}
	input := vmh.Input(vmh.Alice, "f", 1<<40, []byte{1}, []byte{2, 3})
	input.CallValue = big.NewInt(5)
	input.ESDTTransfers = []*vmcommon.ESDTTransfer{{ESDTTokenName: []byte("tok"), ESDTValue: big.NewInt(3)}}
	out, err := e.Call(input)
	if err != nil || out == nil {
		nd.Fail("an operation returns a normal result or a failed one: " + t.name + ": " + err.Error())
		return nil, false
	}
	next, err := e.Call(vmh.Input(vmh.Alice, "again", 1<<40))
	if err != nil || next == nil {
		nd.Fail("the host serves the next transaction: " + t.name)
		return nil, false
	}
	nd.Assert(next.ReturnCode == vmcommon.Ok && len(next.ReturnData) == 1, "the next transaction gets its normal result: "+t.name)
	return out, done
}

// lenient lists the operations that end the contract without failing it (1), and
// those that answer an unreadable parameter with a default or ignore it (2).
var lenient = map[string]int{
	"upgradeContract":           1,
	"upgradeFromSourceContract": 1,
	"asyncCall":                 1,
	"transferESDT":              2, // deprecated: does nothing
	"getCurrentESDTNFTNonce":    2,
}

// single gives one parameter of one operation any value.
func single(lo, hi int) {
	if hi > len(table) {
		hi = len(table)
	}
	t := table[lo+nd.Choice("op", hi-lo)]
	if len(t.kinds) == 0 {
		out, done := tryOp(t, nil)
		if out != nil && done {
			nd.Reach("plain")
		}
		return
	}
	i := nd.Choice("parameter", len(t.kinds))
	p := append([]int64{}, t.good...)
	p[i] = weird("v", t.kinds[i:i+1])
	out, done := tryOp(t, p)
	if out == nil {
		return
	}
	if done {
		nd.Reach("done")
	} else if lenient[t.name] == 0 {
		nd.Reach("failed")
		nd.Assert(out.ReturnCode != vmcommon.Ok, "an operation that ends the contract fails the execution: "+t.name)
	}
	if lenient[t.name] > 1 {
		return
	}
	if k := t.kinds[i]; k == 'l' || k == 'n' {
		nd.Assert(p[i] >= 0 || !done, "a negative length or count is refused: "+t.name)
	} else if k == 'o' {
		nd.Assert(p[i] >= 0 || !done, "a negative offset is refused: "+t.name)
	}
}

// N01_Single1 is the first part of the operations with one parameter of any value.
func N01_Single1() { single(0, 40) }

// N01_Single2 is the second part.
func N01_Single2() { single(40, 80) }

// N01_Single3 is the third part.
func N01_Single3() { single(80, 1000) }

// N01_Counts gives the parameters that count things, and those that are lengths of
// what an operation reads, any value, and looks at the memory the host takes.
func N01_Counts() {
	nd.AllocLimit("no operation takes more than a gigabyte at once", 1<<30)
	t := table[nd.Choice("op", len(table))]
	i := nd.Choice("parameter", 12)
	nd.Assume(i < len(t.kinds) && (t.kinds[i] == 'n' || t.kinds[i] == 'l'))
	p := append([]int64{}, t.good...)
	v := nd.I32("v")
	nd.Assume(v > 64)
	p[i] = int64(v)
	tryOp(t, p)
	nd.Reach("done")
}

// N01_TooMany asks for more arguments than a number of bytes can describe.
func N01_TooMany() {
	nd.AllocLimit("a count that overflows is refused before memory is taken for it", 1<<30)
	t := table[nd.Choice("op", len(table))]
	i := nd.Choice("parameter", 12)
	nd.Assume(i < len(t.kinds) && t.kinds[i] == 'n' && t.name != "writeLog")
	p := append([]int64{}, t.good...)
	v := nd.I32("v")
	nd.Assume(v > (1<<31-1)/4)
	p[i] = int64(v)
	_, done := tryOp(t, p)
	nd.Assert(!done, "a count that overflows is refused: "+t.name)
	nd.Reach("done")
}

// pairs gives two parameters of one operation any value.
func pairs(lo, hi int) {
	if hi > len(table) {
		hi = len(table)
	}
	t := table[lo+nd.Choice("op", hi-lo)]
	i, j := nd.Choice("one", 12), nd.Choice("other", 12)
	nd.Assume(i < j && j < len(t.kinds))
	p := append([]int64{}, t.good...)
	p[i] = weird("v", t.kinds[i:i+1])
	p[j] = weird("w", t.kinds[j:j+1])
	tryOp(t, p)
	nd.Reach("done")
}

// N01_Pairs1_Thorough is the first part of the operations with two parameters of any value.
func N01_Pairs1_Thorough() { pairs(0, 30) }

// N01_Pairs2_Thorough is the second part.
func N01_Pairs2_Thorough() { pairs(30, 60) }

// N01_Pairs3_Thorough is the third part.
func N01_Pairs3_Thorough() { pairs(60, 1000) }
