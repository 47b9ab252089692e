//verif:pkg abi

package abi

import (
	"bytes"
	"reflect"

	"github.com/ThinkiumGroup/go-common"
)

func vxOf(name string, comps ...ArgumentMarshaling) Arguments {
	typ, err := NewType(name, "", comps)
	vAssert(err == nil, "type")
	return Arguments{{Name: "x", Type: typ}}
}

// vxDecode unpacks in every way and compares the ways.
func vxDecode(a Arguments, in []byte) ([]interface{}, bool) {
	keep := append([]byte{}, in...)
	got, err := a.Unpack(in)
	m := map[string]interface{}{}
	merr := a.UnpackIntoMap(m, in)
	vAssert(bytes.Equal(keep, in), "the input is left alone")
	if len(in) == 0 {
		vAssert(err != nil, "nothing is refused")
		return nil, false
	}
	vAssert((err == nil) == (merr == nil), "a map takes what a list takes")
	if err != nil {
		vReach("refused")
		return nil, false
	}
	vAssert(len(got) == len(a) && len(m) == 1, "a value for each argument")
	for i := range a {
		vAssert(reflect.TypeOf(got[i]) == a[i].Type.GetType(), "of its type")
	}
	vReach("decoded")
	return got, true
}

// vxFit is the number in a word, if it is not above the limit.
func vxFit(w []byte, limit int) (int, bool) {
	for _, b := range w[:31] {
		if b != 0 {
			return 0, false
		}
	}
	return int(w[31]), int(w[31]) <= limit
}

// vxSpan is the byte string that a length prefixed value consists of.
func vxSpan(in []byte) ([]byte, bool) {
	off, ok := vxFit(in[:32], len(in)-32)
	if !ok {
		return nil, false
	}
	off = vConc(off)
	n, ok := vxFit(in[off:off+32], len(in)-32-off)
	if !ok {
		return nil, false
	}
	n = vConc(n)
	return in[off+32 : off+32+n], true
}

// vxInput is n bytes: one of its words is huge in some way or other, or none;
// the others are numbers below 256 about the multiples of 32, which are
// offsets, lengths and contents.
func vxInput(n int) []byte {
	in := make([]byte, n)
	wild := vChoose(n/32 + 1)
	for w := 0; 32*w < n; w++ {
		b := in[32*w:]
		if len(b) < 32 {
			b[0], b[len(b)-1] = vU8(), vU8()
			break
		}
		b[31] = vU8()
		r := b[31] % 32
		vAssume(vOr(r < 2, r == 31))
		if w != wild {
			continue
		}
		switch vChoose(6) {
		case 0:
			b[0] = vU8()
		case 1:
			b[23] = 1 // 2^64
		case 2:
			b[24] = 0x80
		case 3:
			b[30] = vU8()
		case 4: // 2^63 - 256 and up
			b[24] = 0x7f
			for i := 25; i < 31; i++ {
				b[i] = 0xff
			}
		case 5: // 2^256 - 256 and up
			for i := 0; i < 31; i++ {
				b[i] = 0xff
			}
		}
	}
	return in
}

var vxLengths = []int{0, 1, 31, 32, 33, 63, 64, 65, 96}

// Byte strings: the offset and the length decide, and both are checked.
func VH_Bytes() {
	in := vxInput(vxLengths[vConc(vChoose(len(vxLengths)))])
	name := "bytes"
	if vChoose(2) == 1 {
		name = "string"
	}
	got, ok := vxDecode(vxOf(name), in)
	if len(in) < 32 {
		vAssert(!ok, "too short")
		return
	}
	want, fits := vxSpan(in)
	vAssert(ok == fits, "accepted exactly if it lies in the input")
	if ok {
		if name == "bytes" {
			vAssert(bytes.Equal(got[0].([]byte), want), "the bytes at the offset")
		} else {
			vAssert(bytes.Equal([]byte(got[0].(string)), want), "the text at the offset")
		}
	}
}

// Slices: each of the elements lies in the input.
func VH_Slices() {
	in := vxInput([]int{32, 64, 96, 127, 128}[vConc(vChoose(vBound("lengths", 4, 5)))])
	size := 1 + vChoose(2)
	name, per := "uint16[]", 1
	if size == 2 {
		name, per = "uint16[2][]", 2
	}
	off, fits := vxFit(in[:32], len(in)-32)
	n := 0
	if fits {
		off = vConc(off)
		n, fits = vxFit(in[off:off+32], (len(in)-32-off)/32/per)
		if fits {
			n = vConc(n)
		}
	}
	got, ok := vxDecode(vxOf(name), in)
	vAssert(ok == fits, "accepted exactly if its elements lie in the input")
	if !ok {
		return
	}
	v := reflect.ValueOf(got[0])
	vAssert(v.Len() == n, "number of elements")
	for i := 0; i < v.Len(); i++ {
		for j := 0; j < per; j++ {
			e := v.Index(i)
			if per == 2 {
				e = e.Index(j)
			}
			p := off + 32 + (i*per+j)*32
			vAssert(e.Interface() == uint16(in[p+30])<<8|uint16(in[p+31]), "element")
		}
	}
}

// Values in place.
func VH_Static() {
	k := vChoose(vxStatics)
	name := []string{"bool", "uint8", "int64", "uint256", "int256", "address", "bytes3", "bytes32", "function", "uint16[2]", "bool[2]"}[k]
	words := 1
	if k >= 9 {
		words = 2
	}
	n := []int{1, 31, 32, 33, 63, 64, 65}[vChoose(7)]
	in := vBytes(n)
	got, ok := vxDecode(vxOf(name), in)
	vAssert(!ok || n >= words*32, "values lie in the input")
	switch k {
	case 0:
		vAssert(!ok || bytes.Equal(in[:31], make([]byte, 31)), "true and false only")
		vAssert(!ok || in[31] == 1 == got[0].(bool), "bool")
		vAssert(!ok || in[31] <= 1, "true and false only")
	case 1:
		vAssert(!ok || got[0] == in[31], "uint8")
	case 5:
		vAssert(!ok || got[0] == common.BytesToAddress(in[12:32]), "address")
	case 6:
		vAssert(!ok || got[0] == [3]byte{in[0], in[1], in[2]}, "bytes3")
	case 8:
		vAssert(!ok || bytes.Equal(in[24:32], make([]byte, 8)), "function")
	}
	if k != 0 && k != 8 && k != 10 {
		vAssert(ok == (n >= words*32), "any words are values")
	}
}

const vxStatics = 11

// Composed values of bytes that are offsets, lengths and contents at once:
// nothing panics.
func VH_Nested() {
	k := vChoose(8)
	comps := []ArgumentMarshaling{{Name: "a", Type: "uint8"}, {Name: "b", Type: "bytes"}}
	flat := []ArgumentMarshaling{{Name: "a", Type: "bool[2]"}, {Name: "b", Type: "int16"}}
	var a Arguments
	switch k {
	case 0:
		a = vxOf("bytes[]")
	case 1:
		a = vxOf("string[2]")
	case 2:
		a = vxOf("uint8[][]")
	case 3:
		a = vxOf("tuple", comps...)
	case 4:
		a = vxOf("tuple[]", comps...)
	case 5:
		a = vxOf("tuple[2]", comps...)
	case 6:
		a = vxOf("tuple[]", flat...)
	default:
		a = vxOf("uint8[2][][2]")
	}
	words := 1 + vChoose(vBound("words of a composed value", 4, 6))
	in := make([]byte, 32*words-vConc(vChoose(2)))
	// small numbers, most of them offsets within the input
	for w := 0; 32*w+32 <= len(in); w++ {
		x := vU8()
		vAssume(vOr(x < 3, vAnd(x%32 == 0, int(x) <= 32*words)))
		in[32*w+31] = x
	}
	vxDecode(a, in)
}

// Into a struct and into values of other types.
func VH_Targets() {
	in := vxInput([]int{32, 64, 96}[vConc(vChoose(3))])
	a := vxOf("bytes")
	var b []byte
	err := a.UnpackIntoInterface(&b, in)
	want, fits := vxSpan(in)
	vAssert((err == nil) == fits, "accepted exactly if it lies in the input")
	vAssert(!fits || bytes.Equal(b, want), "the bytes at the offset")
	var s struct{ X []byte }
	two := Arguments{a[0], {Name: "y", Type: a[0].Type}}
	vAssert(two.UnpackIntoInterface(&s, in) != nil || len(in) >= 64, "two values need two words")
	var i uint8
	vAssert(a.UnpackIntoInterface(&i, in) != nil, "of another type")
	vAssert(a.UnpackIntoInterface(i, in) != nil, "not a pointer")
	var r string
	vAssert(a.UnpackIntoInterface(&r, in) != nil, "of another type")
	vReach("targets")
}

// The reason of a reverted call and the arguments of an error.
func VH_Revert() {
	n := []int{0, 3, 4, 35, 36, 68, 69, 100}[vConc(vChoose(8))]
	in := vBytes(n)
	if n > 4 {
		copy(in[4:], vxInput(n-4))
	}
	s, err := UnpackRevert(in)
	if err == nil {
		vAssert(len(in) >= 36 && len(s) <= len(in)-36, "the reason lies in the input")
		vReach("reason")
	}
	e := NewError("Bad", vxOf("string"))
	v, err := e.Unpack(in)
	if err == nil {
		l := v.([]interface{})
		vAssert(len(in) >= 36 && len(l) == 1 && len(l[0].(string)) <= len(in)-36, "the arguments lie in the input")
		vReach("error")
	}
}
