//verif:pkg abi

package abi

import (
	"bytes"
	"math/big"
	"reflect"

	"github.com/ThinkiumGroup/go-common"
)

var vxEventKinds = []int{0, 15, 9, 10, 11, 17, 6, 13, 1, 12, 3, 5}

// vxArgs is a list of values and which of them are indexed.
func vxArgs(n int) ([]vxT, []bool) {
	r := vChoose(len(vxEventKinds))
	var l []vxT
	var idx []bool
	for i := 0; i < n; i++ {
		l = append(l, vxTame(vxEventKinds[(r+i)%len(vxEventKinds)]))
		idx = append(idx, vChoose(2) == 1)
	}
	return l, idx
}

// vxTame is a value of the kind of which not many take different paths.
func vxTame(k int) vxT {
	switch k {
	case 9:
		return vxLeaf(22)
	case 11:
		return vxLeaf(21)
	case 1:
		return vxLeaf(18)
	case 10:
		return vxLeaf(10)
	case 15:
		return vxBytesT(vBytes(2))
	case 13:
		x := [32]byte{vU8()}
		x[31] = vU8()
		return vxT{name: "bytes32", val: x, enc: x[:], same: func(g interface{}) bool { return g == x }}
	case 6:
		x := int16(vU8()) - 257
		return vxT{name: "int16", val: x, enc: vxWord(vxBE(uint64(x), 2), 0xff), same: func(g interface{}) bool { return g == x }}
	}
	return vxLeaf(k)
}

// vxLog is the log that emits the values, by an independent encoding.
func vxLog(ev Event, l []vxT, idx []bool) (topics []common.Hash, data []byte) {
	topics = append(topics, ev.ID)
	var rest []vxT
	for i, x := range l {
		if !idx[i] {
			rest = append(rest, x)
			continue
		}
		if x.dyn {
			topics = append(topics, vxHashed(x))
		} else {
			topics = append(topics, common.BytesToHash(x.enc))
		}
	}
	return topics, vxJoin(rest)
}

func vxHashed(x vxT) common.Hash {
	switch v := x.val.(type) {
	case string:
		return common.Hash256([]byte(v))
	case []byte:
		return common.Hash256(v)
	}
	panic("no bytes")
}

func vxEventOf(l []vxT, idx []bool) (ABI, Event) {
	in := vxTypesOf(l)
	for i := range in {
		in[i].Indexed = idx[i]
	}
	ev := NewEvent("E", "E", false, in)
	other := NewEvent("F", "F", false, in)
	return ABI{Events: map[string]Event{"F": other, "E": ev}}, ev
}

// vxIs compares with the value, or with its hash where only that is logged.
func vxIs(x vxT, indexed bool, got interface{}) bool {
	if x.dyn && indexed {
		h := vxHashed(x)
		g := got.(common.Hash)
		return bytes.Equal(g[:], h[:])
	}
	return x.same(got)
}

// Topics of the values are what is logged, and decode to the values.
func VH_Topics() {
	k := vChoose(len(vxEventKinds))
	x := vxLeaf(vxEventKinds[k])
	in := vxTypesOf([]vxT{x})
	in[0].Indexed = true
	query, err := MakeTopics([]interface{}{x.val}, nil, []interface{}{x.val, x.val})
	vAssert(err == nil && len(query) == 3 && len(query[0]) == 1 && len(query[1]) == 0 && len(query[2]) == 2, "a topic for each rule")
	t := query[0][0]
	want := common.BytesToHash(x.enc)
	if x.dyn {
		want = vxHashed(x)
	}
	vAssert(bytes.Equal(t[:], want[:]), "the topic is the word of the value or its hash")
	m := map[string]interface{}{}
	vAssert(ParseTopicsIntoMap(m, in, []common.Hash{t}) == nil && len(m) == 1, "parsed")
	vAssert(vxIs(x, true, m[in[0].Name]), "the topic decodes to the value")
	vAssert(ParseTopicsIntoMap(m, in, nil) != nil, "a missing topic is refused")
	in[0].Indexed = false
	vAssert(ParseTopicsIntoMap(m, in, []common.Hash{t}) != nil, "not indexed")
	vReach("topics")
}

// Signed integers of all sizes, beyond those of an int64 too.
func VH_BigTopics() {
	b := vBytes(vBound("bytes of a topic", 10, 31))
	x := new(big.Int).SetBytes(b)
	if vChoose(2) == 1 {
		x.Neg(x)
	}
	was := new(big.Int).Set(x)
	query, err := MakeTopics([]interface{}{x})
	vAssert(err == nil && x.Cmp(was) == 0, "made, and the number is left alone")
	in := vxOf2("int256")
	m := map[string]interface{}{}
	vAssert(ParseTopicsIntoMap(m, in, query[0]) == nil, "parsed")
	vAssert(m["x"].(*big.Int).Cmp(x) == 0, "the topic decodes to the value")
	vReach("big topics")
}

func vxOf2(name string) Arguments {
	typ, err := NewType(name, "", nil)
	vAssert(err == nil, "type")
	return Arguments{{Name: "x", Type: typ, Indexed: true}}
}

// Functions are left aligned in one place and right aligned in another.
func VH_Functions() {
	var x [24]byte
	x[0], x[23] = vU8(), vU8()
	x[8] = 1
	query, err := MakeTopics([]interface{}{x})
	vAssert(err == nil, "made")
	m := map[string]interface{}{}
	vKnown("function-topic", true)
	vAssert(ParseTopicsIntoMap(m, vxOf2("function"), query[0]) == nil && m["x"] == x, "the topic of a function decodes to it")
	vReach("functions")
}

type vxAny struct {
	X0, X1, X2, X3 interface{}
}

// The event with its arguments in any order is read into fields of its names.
func VH_Event() {
	l, idx := vxArgs(2 + vChoose(vBound("arguments", 3, 4)-1))
	a, ev := vxEventOf(l, idx)
	topics, data := vxLog(ev, l, idx)
	found, err := a.EventByID(topics[0])
	vAssert(err == nil && found.Name == "E", "the event is found by its id")

	// into a structure made for it
	var fields []reflect.StructField
	for i, x := range l {
		t := reflect.TypeOf(x.val)
		if x.dyn && idx[i] {
			t = reflect.TypeOf(common.Hash{})
		}
		// fields stand in reverse order
		fields = append([]reflect.StructField{{Name: "Arg" + vxNum(i), Type: t}}, fields...)
	}
	v := reflect.New(reflect.StructOf(fields))
	vAssert(a.UnpackEvent(v.Interface(), topics, data) == nil, "unpacked")
	for i, x := range l {
		vAssert(vxIs(x, idx[i], v.Elem().Field(len(l)-1-i).Interface()), "each value in the field of its name")
	}

	// topics and data apart
	m := map[string]interface{}{}
	var indexed Arguments
	for i := range l {
		if idx[i] {
			indexed = append(indexed, ev.Inputs[i])
		}
	}
	vAssert(ParseTopicsIntoMap(m, indexed, topics[1:]) == nil, "topics into a map")
	vAssert(a.UnpackIntoMap(m, "E", data) == nil, "data into the map")
	vAssert(len(m) == len(l), "a value for each name")
	for i, x := range l {
		vAssert(vxIs(x, idx[i], m["arg_"+vxNum(i)]), "each value under its name")
	}

	// what is missing
	if len(topics) > 1 {
		vAssert(a.UnpackEvent(v.Interface(), topics[:len(topics)-1], data) != nil, "a missing topic is refused")
	}
	if len(data) > 0 {
		vAssert(a.UnpackEvent(v.Interface(), topics, data[:len(data)-32]) != nil, "missing data is refused")
		vAssert(a.UnpackEvent(v.Interface(), topics, nil) != nil, "missing data is refused")
	}
	vAssert(a.UnpackEvent(v.Interface(), nil, data) != nil, "no event")
	topics[0][0] ^= 1
	vAssert(a.UnpackEvent(v.Interface(), topics, data) != nil, "another event")
	vReach("event")
}

// The data that is packed for an event.
func VH_PackArgs() {
	l, idx := vxArgs(2)
	a, ev := vxEventOf(l, idx)
	_, data := vxLog(ev, l, idx)
	var vals []interface{}
	for i, x := range l {
		if !idx[i] {
			vals = append(vals, x.val)
		}
	}
	b, err := a.PackEventArgs("E", vals...)
	if len(vals) == 0 {
		return
	}
	vAssert(err == nil && bytes.Equal(b, data), "the arguments that are not indexed")
	vReach("packed")
}

// A single argument.
func VH_One() {
	x := vxTame(vxEventKinds[vChoose(len(vxEventKinds))])
	idx := []bool{vChoose(2) == 1}
	a, ev := vxEventOf([]vxT{x}, idx)
	topics, data := vxLog(ev, []vxT{x}, idx)
	t := reflect.TypeOf(x.val)
	if x.dyn && idx[0] {
		t = reflect.TypeOf(common.Hash{})
	}
	v := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Arg0", Type: t}}))
	vAssert(a.UnpackEvent(v.Interface(), topics, data) == nil, "unpacked")
	vAssert(vxIs(x, idx[0], v.Elem().Field(0).Interface()), "its value")
	vReach("one")
}

// Printed, each value stands behind its name.
func VH_String() {
	u, _ := NewType("uint64", "", nil)
	b, _ := NewType("bytes", "", nil)
	f, _ := NewType("bytes2", "", nil)
	i, _ := NewType("int16", "", nil)
	l := []vxT{
		{val: uint64(7), enc: vxNumWord(7)},
		{val: []byte{1, 2}, enc: append(vxNumWord(2), vxPad([]byte{1, 2})...), dyn: true},
		{val: [2]byte{0xab, 0xcd}, enc: vxPad([]byte{0xab, 0xcd})},
		{val: int16(-3), enc: vxWord([]byte{0xfd}, 0xff)},
	}
	types := []Type{u, b, f, i}
	h := common.Hash256([]byte{1, 2})
	text := []string{"7", "0x0102", "0xabcd", "-3"}
	// in any order
	p := vConc(vChoose(4))
	q := vConc(vChoose(4))
	l[p], l[q], types[p], types[q], text[p], text[q] = l[q], l[p], types[q], types[p], text[q], text[p]
	in := Arguments{}
	var idx []bool
	want := "E("
	for k := range l {
		idx = append(idx, vChoose(2) == 1)
		in = append(in, Argument{Name: "n" + vxNum(k), Type: types[k], Indexed: idx[k]})
		if k > 0 {
			want += ", "
		}
		s := text[k]
		if l[k].dyn && idx[k] {
			s = "0x" + vxHex(h[:])
		}
		want += "n" + vxNum(k) + ":" + s
	}
	ev := NewEvent("E", "E", false, in)
	a := ABI{Events: map[string]Event{"E": ev}}
	topics, data := vxLog(ev, l, idx)
	got, err := a.EventString(topics, data)
	vAssert(err == nil && got == want+")", "each value behind its name")
	vReach("string")
}

func vxHex(b []byte) string {
	const digits = "0123456789abcdef"
	s := ""
	for _, c := range b {
		s += digits[c>>4:c>>4+1] + digits[c&15:c&15+1]
	}
	return s
}
