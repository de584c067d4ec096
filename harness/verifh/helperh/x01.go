package helperh

import (
	"math/big"
	"reflect"
	"sort"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	nd "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifnd"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/verifh/vmh"
)

// X01_Leb128 decodes the encoding of every 64-bit number.
func X01_Leb128() {
	n := nd.U64("n")
	out := arwen.U64ToLEB128(n)
	nd.Observe("out", out)
	nd.Assert(len(out) >= 1 && len(out) <= 10, "a 64-bit number takes one to ten bytes")
	back := uint64(0)
	for i := range out {
		b := out[i]
		if i == 9 {
			nd.Assert(b <= 1, "the tenth byte holds one bit")
		}
		back |= uint64(b&0x7F) << (7 * uint(i))
		nd.Assert((b >= 0x80) == (i < len(out)-1), "only the last byte has the continuation bit clear")
	}
	nd.Assert(back == n, "decoding gives the number back")
	nd.Assert(len(out) == 1 || out[len(out)-1] != 0, "the encoding is the shortest one")
	nd.Reach("encoded")
}

// X01_Slice reads a slice at any offset and of any length.
func X01_Slice() {
	n := 4 + 3*nd.Tier()
	data := nd.BytesUpTo("data", n)
	offset, length := nd.I32("offset"), nd.I32("length")
	out, err := arwen.GuardedGetBytesSlice(data, offset, length)
	inside := offset >= 0 && length >= 0 && int64(offset)+int64(length) <= int64(len(data))
	nd.Observe("ok", err == nil)
	nd.Observe("out", out)
	nd.Assert((err == nil) == inside, "exactly the ranges inside the data are accepted")
	if err != nil {
		nd.Assert(len(out) == 0, "a refused read returns nothing")
		nd.Reach("refused")
		return
	}
	nd.Assert(len(out) == int(length), "the slice has the requested length")
	for i := range out {
		nd.Assert(out[i] == data[int(offset)+i], "the slice holds the requested bytes")
	}
	nd.Reach("read")
}

// X01_Make2D makes a two-dimensional slice of any length.
func X01_Make2D() {
	length := nd.I32("length")
	if length >= 0 {
		nd.Assume(length <= 48)
	}
	out, err := arwen.GuardedMakeByteSlice2D(length)
	nd.Observe("ok", err == nil)
	nd.Assert((err != nil) == (length < 0), "exactly the negative lengths are refused")
	if err == nil {
		nd.Assert(len(out) == int(length), "the slice has the requested length")
		nd.Reach("made")
	} else {
		nd.Reach("refused")
	}
}

// X01_Pad pads byte strings on the left.
func X01_Pad() {
	data := nd.BytesUpTo("data", 4+4*nd.Tier())
	size := int(int8(nd.U8("size")))
	nd.Assume(size <= 40)
	before := append([]byte{}, data...)
	out := arwen.PadBytesLeft(data, size)
	nd.Observe("out", out)
	if len(data) == 0 {
		nd.Assert(len(out) == 0, "nothing stays nothing")
		nd.Reach("empty")
		return
	}
	want := len(data)
	if size > want {
		want = size
		nd.Reach("padded")
	}
	nd.Assert(len(out) == want, "the result has the requested length, or the length of longer data")
	for i := range out {
		j := i - (want - len(before))
		if j < 0 {
			nd.Assert(out[i] == 0, "the padding is zero")
		} else {
			nd.Assert(out[i] == before[j], "the data follow the padding unchanged")
		}
	}
	nd.Assert(big.NewInt(0).SetBytes(out).Cmp(big.NewInt(0).SetBytes(before)) == 0, "padding does not change the number")
}

// X01_Inverse reverses byte strings.
func X01_Inverse() {
	data := nd.BytesUpTo("data", 6+6*nd.Tier())
	before := append([]byte{}, data...)
	out := arwen.InverseBytes(data)
	nd.Assert(len(out) == len(data), "the length is kept")
	for i := range out {
		nd.Assert(out[i] == before[len(before)-1-i], "the bytes are reversed")
		nd.Assert(data[i] == before[i], "the argument is left alone")
	}
	back := arwen.InverseBytes(out)
	for i := range back {
		nd.Assert(back[i] == before[i], "reversing twice gives the data back")
	}
	nd.Observe("out", out)
	nd.Reach("reversed")
}

// X01_CustomKey builds protected keys: the type follows the key, different keys
// stay different, and building one key does not disturb another.
func X01_CustomKey() {
	a, b := nd.BytesUpTo("a", 3), nd.BytesUpTo("b", 3)
	ka := arwen.CustomStorageKey("LOCK", a)
	kb := arwen.CustomStorageKey("LOCK", b)
	nd.Observe("ka", ka)
	nd.Observe("kb", kb)
	nd.Assert(string(ka) == string(a)+"LOCK", "the type follows the key")
	nd.Assert((string(ka) == string(kb)) == (string(a) == string(b)), "different keys stay different")
	nd.Reach("built")
}

// X01_CustomKeyShared builds two keys from the same bytes, which may lie inside
// a longer byte string.
func X01_CustomKeyShared() {
	room := nd.Choice("room", 3)
	store := nd.Bytes("store", 8)
	before := append([]byte{}, store...)
	key := store[:2]
	if room == 1 {
		key = store[:2:2]
	}
	if room == 2 {
		key = store[:2:4]
	}
	k1 := arwen.CustomStorageKey("LOCK", key)
	k2 := arwen.CustomStorageKey("DATA", key)
	nd.Observe("k1", k1)
	nd.Observe("k2", k2)
	nd.Assert(string(k1) == string(before[:2])+"LOCK", "the first key keeps its bytes when the second is built")
	nd.Assert(string(k2) == string(before[:2])+"DATA", "the second key is the key followed by its type")
	nd.Assert(string(store) == string(before), "the bytes around the key are left alone")
	nd.Reach("shared")
}

// X01_Bool tells booleans apart.
func X01_Bool() {
	b := nd.Bool("b")
	r := arwen.BooleanToInt(b)
	nd.Observe("r", r)
	nd.Assert((r == 1) == b && (r == 0) == !b, "true is one and false is zero")
	nd.Reach("bool")
}

// ----- gas schedules

var sections = []string{"BaseOperationCost", "ElrondAPICost", "BigIntAPICost", "EthAPICost", "CryptoAPICost", "WASMOpcodeCost"}

func keys(m map[string]uint64) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// part returns the section of the configuration.
func part(c *config.GasCost, section string) interface{} {
	switch section {
	case "BaseOperationCost":
		return c.BaseOperationCost
	case "ElrondAPICost":
		return c.ElrondAPICost
	case "BigIntAPICost":
		return c.BigIntAPICost
	case "EthAPICost":
		return c.EthAPICost
	case "CryptoAPICost":
		return c.CryptoAPICost
	}
	return c.WASMOpcodeCost
}

// asGiven checks that every cost of the section is the one of the schedule.
func asGiven(c *config.GasCost, section string, m map[string]uint64) {
	v := reflect.ValueOf(part(c, section))
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		given, ok := m[name]
		nd.Assert(ok, "no cost is made up")
		nd.Assert(v.Field(i).Uint() == given, "each cost is used as given")
	}
}

// schedule replaces every price of one section by an arbitrary one.
func schedule(section string, fits32 bool) config.GasScheduleMap {
	g := config.MakeGasMapForTests()
	for _, k := range keys(g[section]) {
		v := nd.U64(k)
		if fits32 {
			nd.Assume(v < 1<<32)
		}
		g[section][k] = v
	}
	return g
}

// anyZero tells whether some price is zero, without a branch per price.
func anyZero(m map[string]uint64) bool {
	all := uint64(1)
	for _, k := range keys(m) {
		v := m[k]
		all &= (v | -v) >> 63
	}
	return all == 0
}

func accept(section string) {
	g := schedule(section, section == "WASMOpcodeCost")
	c, err := config.CreateGasConfig(g)
	nd.Observe("ok", err == nil)
	if err != nil {
		nd.Assert(anyZero(g[section]), "a schedule is refused only when a cost is zero")
		nd.Assert(c == nil, "a refused schedule gives no configuration")
		nd.Reach("refused")
		return
	}
	for _, s := range sections {
		asGiven(c, s, g[s])
	}
	for _, k := range keys(g[section]) {
		nd.Assert(g[section][k] != 0, "a schedule with a cost of zero is refused")
	}
	nd.Reach("accepted")
}

// X01_ScheduleApi decides acceptance for every price of the operations.
func X01_ScheduleApi() {
	accept(sections[nd.Choice("section", 5)])
}

// X01_ScheduleOpcodes_Thorough decides acceptance for every price of the
// opcodes, all of them arbitrary together.
func X01_ScheduleOpcodes_Thorough() {
	accept("WASMOpcodeCost")
}

// window makes the prices of 64 consecutive opcodes arbitrary (zero as well);
// the others are all different.
func window(g config.GasScheduleMap, k int) map[string]uint64 {
	m := g["WASMOpcodeCost"]
	some := map[string]uint64{}
	for i, name := range keys(m) {
		m[name] = uint64(1000 + i)
		if i/64 == k {
			m[name] = uint64(nd.U32(name))
			some[name] = m[name]
		}
	}
	return some
}

// X01_ScheduleOpcodes decides acceptance for every price of 64 opcodes at a time.
func X01_ScheduleOpcodes() {
	g := config.MakeGasMapForTests()
	k := nd.Choice("window", 8)
	some := window(g, k)
	c, err := config.CreateGasConfig(g)
	nd.Observe("ok", err == nil)
	if err != nil {
		nd.Assert(anyZero(some), "a schedule is refused only when a cost is zero")
		nd.Reach("refused")
		return
	}
	nd.Assert(!anyZero(some), "a schedule with a cost of zero is refused")
	for _, s := range sections {
		asGiven(c, s, g[s])
	}
	nd.Reach("accepted")
}

// X01_Truncation takes opcode prices that do not fit the price table.
func X01_Truncation() {
	g := config.MakeGasMapForTests()
	v := nd.U64("cost")
	name := []string{"Nop", "I64Load", "LocalAllocate"}[nd.Choice("opcode", 3)]
	g["WASMOpcodeCost"][name] = v
	c, err := config.CreateGasConfig(g)
	nd.Observe("ok", err == nil)
	if err != nil {
		nd.Assert(v == 0 || v >= 1<<32, "a usable price is accepted")
		nd.Reach("refused")
		return
	}
	nd.Reach("accepted")
	asGiven(c, "WASMOpcodeCost", g["WASMOpcodeCost"])
}

// X01_Missing removes one cost, or one whole section.
func X01_Missing() {
	g := config.MakeGasMapForTests()
	section := sections[nd.Choice("section", len(sections))]
	ks := keys(g[section])
	i := nd.Choice("key", len(ks)+1)
	if i == len(ks) {
		delete(g, section)
	} else {
		delete(g[section], ks[i])
	}
	_, err := config.CreateGasConfig(g)
	nd.Observe("ok", err == nil)
	nd.Assert(err != nil, "a schedule with a missing cost is refused")
	nd.Reach("refused")
}

// X01_OpcodeTable puts every opcode's price in its place of the table, 64
// arbitrary prices at a time.
func X01_OpcodeTable() {
	g := config.MakeGasMapForTests()
	for _, v := range window(g, nd.Choice("window", 8)) {
		nd.Assume(v != 0)
	}
	table(g)
}

// X01_OpcodeTable_Thorough does so for all prices together.
func X01_OpcodeTable_Thorough() {
	g := schedule("WASMOpcodeCost", true)
	for _, k := range keys(g["WASMOpcodeCost"]) {
		nd.Assume(g["WASMOpcodeCost"][k] != 0)
	}
	table(g)
}

func table(g config.GasScheduleMap) {
	c, err := config.CreateGasConfig(g)
	nd.Assert(err == nil, "the schedule is accepted")
	table := c.WASMOpcodeCost.ToOpcodeCostsArray()
	nd.Assert(len(table) == len(opcodes), "the table has one place per opcode")
	for i := range table {
		nd.Assert(uint64(table[i]) == g["WASMOpcodeCost"][opcodes[i]], "each opcode's price is in its own place")
	}
	nd.Reach("table")
}

// X01_TestMap fills a schedule with one value.
func X01_TestMap() {
	v, lock := uint64(nd.U32("value")), nd.U64("lock")
	nd.Assume(v != 0 && lock != 0)
	c, err := config.CreateGasConfig(config.MakeGasMap(v, lock))
	nd.Assert(err == nil, "a filled schedule is complete")
	for _, s := range sections {
		f := reflect.ValueOf(part(c, s))
		for i := 0; i < f.NumField(); i++ {
			want := v
			switch f.Type().Field(i).Name {
			case "AsyncCallbackGasLock":
				want = lock
			case "LocalsUnmetered":
				want = 100
			}
			nd.Assert(f.Field(i).Uint() == want, "each cost has the value filled in")
		}
	}
	nd.Reach("filled")
}

// X01_Change changes the schedule of a running host: a good one is used from
// then on, a bad one changes nothing.
func X01_Change() {
	e := vmh.NewEnv(vmh.Opt{})
	old := *e.H.Metering().GasSchedule()
	oldMap := e.H.GetGasScheduleMap()
	oldStore := oldMap["BaseOperationCost"]["StorePerByte"]

	g := config.MakeGasMapForTests()
	store, log, add, op := nd.U64("store"), nd.U64("log"), nd.U64("add"), nd.U32("op")
	g["BaseOperationCost"]["StorePerByte"] = store
	g["ElrondAPICost"]["Log"] = log
	g["BigIntAPICost"]["BigIntAdd"] = add
	g["WASMOpcodeCost"]["Nop"] = uint64(op)
	bad := store == 0 || log == 0 || add == 0 || op == 0
	e.H.GasScheduleChange(g)
	now := *e.H.Metering().GasSchedule()
	nd.Observe("store", now.BaseOperationCost.StorePerByte)
	nd.Observe("map", e.H.GetGasScheduleMap()["BaseOperationCost"]["StorePerByte"])
	if bad {
		nd.Assert(now == old, "a bad schedule leaves the prices as they were")
		nd.Assert(e.H.GetGasScheduleMap()["BaseOperationCost"]["StorePerByte"] == oldStore, "a bad schedule is not reported as the current one")
		nd.Reach("kept")
		return
	}
	for _, s := range sections {
		asGiven(&now, s, g[s])
	}
	nd.Assert(e.H.GetGasScheduleMap()["BaseOperationCost"]["StorePerByte"] == store, "a good schedule is the current one")
	nd.Reach("changed")
}
