//verif:pkg abi

package abi

import (
	"bytes"
	"math/big"
	"reflect"

	"github.com/ThinkiumGroup/go-common"
)

// vxT is a value of a contract type, its encoding by the contract ABI, and
// whether it is of a dynamic type.
type vxT struct {
	name  string
	comps []ArgumentMarshaling
	val   interface{}
	enc   []byte
	dyn   bool
	same  func(got interface{}) bool
}

func vxWord(b []byte, fill byte) []byte {
	w := bytes.Repeat([]byte{fill}, 32-len(b))
	return append(w, b...)
}

func vxNumWord(n int) []byte {
	return vxWord([]byte{byte(n >> 8), byte(n)}, 0)
}

func vxPad(b []byte) []byte {
	b = append([]byte{}, b...)
	for len(b)%32 != 0 {
		b = append(b, 0)
	}
	return b
}

func vxBE(x uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x >> (8 * uint(n-1-i)))
	}
	return b
}

func vxLeaf(k int) vxT {
	switch k {
	case 0:
		x := vU8()
		return vxT{name: "uint8", val: x, enc: vxWord([]byte{x}, 0), same: func(g interface{}) bool { return g == x }}
	case 1:
		x := vU16()
		return vxT{name: "uint16", val: x, enc: vxWord(vxBE(uint64(x), 2), 0), same: func(g interface{}) bool { return g == x }}
	case 2:
		x := vU32()
		return vxT{name: "uint32", val: x, enc: vxWord(vxBE(uint64(x), 4), 0), same: func(g interface{}) bool { return g == x }}
	case 3:
		x := vU64()
		return vxT{name: "uint64", val: x, enc: vxWord(vxBE(x, 8), 0), same: func(g interface{}) bool { return g == x }}
	case 4:
		b := vBytes(vBound("bytes of a big integer", 10, 32))
		x := new(big.Int).SetBytes(b)
		return vxT{name: "uint256", val: x, enc: vxWord(b, 0), same: func(g interface{}) bool { return g.(*big.Int).Cmp(x) == 0 }}
	case 5:
		x := int8(vU8())
		return vxT{name: "int8", val: x, enc: vxWord(vxBE(uint64(x), 1), byte(x>>7)), same: func(g interface{}) bool { return g == x }}
	case 6:
		x := int16(vU16())
		return vxT{name: "int16", val: x, enc: vxWord(vxBE(uint64(x), 2), byte(x>>15)), same: func(g interface{}) bool { return g == x }}
	case 7:
		x := int32(vU32())
		return vxT{name: "int32", val: x, enc: vxWord(vxBE(uint64(x), 4), byte(x>>31)), same: func(g interface{}) bool { return g == x }}
	case 8:
		x := vI64()
		return vxT{name: "int64", val: x, enc: vxWord(vxBE(uint64(x), 8), byte(x>>63)), same: func(g interface{}) bool { return g == x }}
	case 9: // a signed integer of a size that Go lacks
		x := vI64()
		b := big.NewInt(x)
		name := "int256"
		if vChoose(2) == 0 {
			name = "int72"
		}
		return vxT{name: name, val: b, enc: vxWord(vxBE(uint64(x), 8), byte(x>>63)), same: func(g interface{}) bool { return g.(*big.Int).Cmp(b) == 0 }}
	case 10:
		x := vBool()
		b := byte(0)
		if x {
			b = 1
		}
		return vxT{name: "bool", val: x, enc: vxWord([]byte{b}, 0), same: func(g interface{}) bool { return g == x }}
	case 11:
		x := common.BytesToAddress(vBytes(20))
		return vxT{name: "address", val: x, enc: vxWord(x[:], 0), same: func(g interface{}) bool { return g == x }}
	case 12:
		x := [1]byte{vU8()}
		return vxT{name: "bytes1", val: x, enc: vxPad(x[:]), same: func(g interface{}) bool { return g == x }}
	case 13:
		var x [32]byte
		copy(x[:], vBytes(32))
		return vxT{name: "bytes32", val: x, enc: vxPad(x[:]), same: func(g interface{}) bool { return g == x }}
	case 14:
		var x [24]byte
		copy(x[:], vBytes(24))
		return vxT{name: "function", val: x, enc: vxPad(x[:]), same: func(g interface{}) bool { return g == x }}
	case 15:
		return vxBytesT(vBytes(vChoose(3)))
	case 16: // lengths about a word
		b := make([]byte, 31+vConc(vChoose(3)))
		b[0], b[30] = vU8(), vU8()
		return vxBytesT(b)
	}
	switch k { // of which each value takes the same path
	case 18:
		x := 0x100 | uint16(vU8())
		return vxT{name: "uint16", val: x, enc: vxWord(vxBE(uint64(x), 2), 0), same: func(g interface{}) bool { return g == x }}
	case 19:
		return vxT{name: "bool", val: true, enc: vxNumWord(1), same: func(g interface{}) bool { return g == true }}
	case 20:
		return vxT{name: "int8", val: int8(-3), enc: vxWord([]byte{0xfd}, 0xff), same: func(g interface{}) bool { return g == int8(-3) }}
	case 22:
		x := int64(-1<<40) | int64(vU8())
		b := big.NewInt(x)
		return vxT{name: "int256", val: b, enc: vxWord(vxBE(uint64(x), 8), 0xff), same: func(g interface{}) bool { return g.(*big.Int).Cmp(b) == 0 }}
	case 21:
		b := make([]byte, 20)
		b[0], b[19] = vU8(), vU8()
		x := common.BytesToAddress(b)
		return vxT{name: "address", val: x, enc: vxWord(b, 0), same: func(g interface{}) bool { return g == x }}
	}
	x := string(vBytes(vChoose(3)))
	return vxT{name: "string", val: x, dyn: true, enc: append(vxNumWord(len(x)), vxPad([]byte(x))...), same: func(g interface{}) bool { return g == x }}
}

const vxLeaves = 18

func vxBytesT(b []byte) vxT {
	return vxT{name: "bytes", val: b, dyn: true, enc: append(vxNumWord(len(b)), vxPad(b)...), same: func(g interface{}) bool { return bytes.Equal(g.([]byte), b) }}
}

// vxJoin is the encoding of a sequence: the static values in place, the
// others behind, at the offsets in their places.
func vxJoin(l []vxT) []byte {
	size := 0
	for _, x := range l {
		if x.dyn {
			size += 32
		} else {
			size += len(x.enc)
		}
	}
	var head, tail []byte
	for _, x := range l {
		if x.dyn {
			head = append(head, vxNumWord(size+len(tail))...)
			tail = append(tail, x.enc...)
		} else {
			head = append(head, x.enc...)
		}
	}
	return append(head, tail...)
}

func vxNum(n int) string {
	return string([]byte{'0' + byte(n)})
}

// vxList is T[] or T[n] of the given values of one type.
func vxList(of vxT, l []vxT, fixed bool) vxT {
	x := vxT{name: of.name + "[]", comps: of.comps, dyn: true, enc: append(vxNumWord(len(l)), vxJoin(l)...)}
	typ := reflect.SliceOf(reflect.TypeOf(of.val))
	if fixed {
		x.name = of.name + "[" + vxNum(len(l)) + "]"
		x.dyn = of.dyn
		x.enc = vxJoin(l)
		typ = reflect.ArrayOf(len(l), reflect.TypeOf(of.val))
	}
	v := reflect.New(typ).Elem()
	if !fixed {
		v.Set(reflect.MakeSlice(typ, len(l), len(l)))
	}
	for i := range l {
		v.Index(i).Set(reflect.ValueOf(l[i].val))
	}
	x.val = v.Interface()
	x.same = func(g interface{}) bool {
		v := reflect.ValueOf(g)
		if v.Len() != len(l) {
			return false
		}
		ok := true
		for i := range l {
			ok = vAnd(ok, l[i].same(v.Index(i).Interface()))
		}
		return ok
	}
	return x
}

func vxTuple(l ...vxT) vxT {
	x := vxT{name: "tuple", enc: vxJoin(l)}
	for i, e := range l {
		x.comps = append(x.comps, ArgumentMarshaling{Name: "f" + vxNum(i), Type: e.name, Components: e.comps})
		x.dyn = x.dyn || e.dyn
	}
	typ, err := NewType("tuple", "", x.comps)
	vAssert(err == nil, "tuple type")
	v := reflect.New(typ.GetType()).Elem()
	for i := range l {
		v.Field(i).Set(reflect.ValueOf(l[i].val))
	}
	x.val = v.Interface()
	x.same = func(g interface{}) bool {
		v := reflect.ValueOf(g)
		ok := v.NumField() == len(l)
		for i := range l {
			ok = vAnd(ok, l[i].same(v.Field(i).Interface()))
		}
		return ok
	}
	return x
}

// vxShape is a value of some composed type.
func vxShape(k int) vxT {
	u := func() vxT { return vxLeaf(18) }
	s := func() vxT { return vxBytesT(vBytes(1)) }
	switch k {
	case 0:
		return vxList(u(), []vxT{u(), u(), u()}[:vChoose(4)], false)
	case 1:
		return vxList(s(), []vxT{s(), s()}[:vChoose(3)], false)
	case 2:
		return vxList(u(), []vxT{u(), u()}, true)
	case 3:
		return vxList(s(), []vxT{s(), s()}, true)
	case 4: // uint16[2][3]
		a := func() vxT { return vxList(u(), []vxT{u(), u()}, true) }
		return vxList(a(), []vxT{a(), a(), a()}, true)
	case 5: // uint16[2][]
		a := func() vxT { return vxList(u(), []vxT{u(), u()}, true) }
		return vxList(a(), []vxT{a(), a()}[:vChoose(3)], false)
	case 6: // uint16[][2]
		a := func(n int) vxT { return vxList(u(), []vxT{u(), u()}[:n], false) }
		return vxList(a(0), []vxT{a(2), a(1)}, true)
	case 7: // bytes[][]
		a := func(n int) vxT { return vxList(s(), []vxT{s(), s()}[:n], false) }
		return vxList(a(0), []vxT{a(1), a(0), a(2)}[:vChoose(4)], false)
	case 8: // static tuple
		return vxTuple(u(), vxLeaf(19), vxLeaf(20))
	case 9: // dynamic tuple
		return vxTuple(u(), s(), vxLeaf(21))
	case 10: // static tuple with an array and a tuple in it
		return vxTuple(vxList(u(), []vxT{u(), u()}, true), vxTuple(vxLeaf(19), u()), vxLeaf(18))
	case 11: // dynamic tuple with both kinds of tuples in it
		return vxTuple(vxTuple(u(), s()), vxTuple(vxLeaf(19), u()), s(), vxLeaf(18))
	case 12: // static tuples in a list
		a := func() vxT { return vxTuple(u(), vxLeaf(19)) }
		return vxList(a(), []vxT{a(), a()}[:vChoose(3)], false)
	case 13: // dynamic tuples in a list
		a := func() vxT { return vxTuple(s(), vxLeaf(19)) }
		return vxList(a(), []vxT{a(), a()}[:vChoose(3)], false)
	case 14: // static tuples in an array
		a := func() vxT { return vxTuple(u(), vxLeaf(19)) }
		return vxList(a(), []vxT{a(), a()}, true)
	case 15: // dynamic tuples in an array
		a := func() vxT { return vxTuple(s(), vxLeaf(19)) }
		return vxList(a(), []vxT{a(), a()}, true)
	}
	// a tuple with lists
	return vxTuple(vxList(u(), []vxT{u(), u()}[:vChoose(3)], false), u(), vxList(s(), []vxT{s()}, true))
}

const vxShapes = 17

// vxBetween puts the value between others, so that its place in the head and
// in the tail counts.
func vxBetween(x vxT) []vxT {
	b := vxBytesT(vBytes(1))
	switch vChoose(3) {
	case 0:
		return []vxT{x}
	case 1:
		return []vxT{vxLeaf(18), x, vxLeaf(19)}
	}
	return []vxT{b, x, vxLeaf(18), b}
}

func vxTypesOf(l []vxT) Arguments {
	var a Arguments
	for i, x := range l {
		typ, err := NewType(x.name, "", x.comps)
		vAssert(err == nil, "type")
		a = append(a, Argument{Name: "arg_" + vxNum(i), Type: typ})
	}
	return a
}

func vxValues(l []vxT) []interface{} {
	var v []interface{}
	for _, x := range l {
		v = append(v, x.val)
	}
	return v
}
