//verif:pkg abi

package abi

import (
	"bytes"
	"math/big"

	"github.com/ThinkiumGroup/go-common"
)

func vxTrip(l []vxT) {
	a := vxTypesOf(l)
	b, err := a.Pack(vxValues(l)...)
	vAssert(err == nil, "packed")
	got, err := a.Unpack(b)
	vAssert(err == nil && len(got) == len(l), "unpacked")
	m := map[string]interface{}{}
	vAssert(a.UnpackIntoMap(m, b) == nil && len(m) == len(l), "unpacked into a map")
	for i := range l {
		vAssert(l[i].same(got[i]), "the value comes back")
		vAssert(l[i].same(m[a[i].Name]), "under its name")
	}
	vReach("round trip")
}

func VH_Leaves() { vxTrip(vxBetween(vxLeaf(vChoose(vxLeaves)))) }

func VH_Shapes() { vxTrip(vxBetween(vxShape(vChoose(vxShapes)))) }

// Two composed values beside one another.
func VH_Pairs() {
	n := vBound("shapes in pairs", 12, vxShapes)
	vxTrip([]vxT{vxShape(vChoose(n)), vxShape(vChoose(n)), vxLeaf(18)})
}

type vxTarget struct {
	Arg0 uint16
	Arg1 []byte
	Arg2 common.Address
	Arg3 struct {
		F0 bool
		F1 string
	}
	Arg4 []struct{ F0 uint16 }
	Arg5 *big.Int
}

// Into a struct, by the names of its fields.
func VH_Struct() {
	t := vxList(vxTuple(vxLeaf(18)), []vxT{vxTuple(vxLeaf(18)), vxTuple(vxLeaf(18))}, false)
	l := []vxT{vxLeaf(18), vxBytesT(vBytes(2)), vxLeaf(21), vxTuple(vxLeaf(19), vxLeaf(17)), t, vxLeaf(22)}
	a := vxTypesOf(l)
	b, err := a.Pack(vxValues(l)...)
	vAssert(err == nil, "packed")
	var v vxTarget
	vAssert(a.UnpackIntoInterface(&v, b) == nil, "unpacked into a struct")
	vAssert(l[0].same(v.Arg0) && l[1].same(v.Arg1) && l[2].same(v.Arg2) && l[3].same(v.Arg3) && l[4].same(v.Arg4) && l[5].same(v.Arg5), "fields")
	// and packed again from the struct
	c, err := a.Pack(v.Arg0, v.Arg1, v.Arg2, v.Arg3, v.Arg4, v.Arg5)
	vAssert(err == nil && bytes.Equal(b, c), "packed from the fields")
	// a single value
	one := a[:1]
	var x uint16
	b, err = one.Pack(l[0].val)
	vAssert(err == nil && one.UnpackIntoInterface(&x, b) == nil && l[0].same(x), "single value")
	// into a list
	out := make([]interface{}, 2)
	var p0, p1 interface{} = new(uint16), new([]byte)
	out[0], out[1] = p0, p1
	two := a[:2]
	b, err = two.Pack(l[0].val, l[1].val)
	vAssert(err == nil && two.UnpackIntoInterface(&out, b) == nil, "into a list")
	vAssert(l[0].same(*p0.(*uint16)) && l[1].same(*p1.(*[]byte)), "list values")
	vReach("struct")
}

// Values of other types than the arguments are refused.
func VH_Refused() {
	n := vConc(vChoose(4))
	bad := []struct {
		t string
		v interface{}
	}{
		{"uint8", vU16()}, {"uint16", int16(1)}, {"bool", vU8()}, {"address", [4]byte{}}, {"bytes2", [3]byte{}},
		{"uint8[2]", []uint8{1, 2, 3}[:n]}, {"uint16[]", []uint8{vU8()}}, {"string", []byte{1}}, {"bytes", "x"}, {"uint256", vU64()},
	}
	x := bad[vConc(vChoose(len(bad)))]
	typ, err := NewType(x.t, "", nil)
	vAssert(err == nil, "type")
	_, err = Arguments{{Name: "a", Type: typ}}.Pack(x.v)
	if x.t == "uint8[2]" && n == 2 {
		vAssert(err == nil, "two of two")
		return
	}
	if x.t == "address" {
		return // any byte array is taken
	}
	vAssert(err != nil, "a value of another type is refused")
	a := Arguments{{Name: "a", Type: typ}, {Name: "b", Type: typ}}
	_, err = a.Pack(x.v)
	vAssert(err != nil, "a missing value is refused")
	_, err = a.Unpack(nil)
	vAssert(err != nil, "nothing is refused")
	vReach("refused")
}

// The reason of a reverted call.
func VH_Revert() {
	s := string(vBytes(vChoose(3)))
	typ, err := NewType("string", "", nil)
	vAssert(err == nil, "type")
	b, err := Arguments{{Type: typ}}.Pack(s)
	vAssert(err == nil, "packed")
	in := append(common.SystemHash256([]byte("Error(string)"))[:4:4], b...)
	got, err := UnpackRevert(in)
	vAssert(err == nil && got == s, "the reason comes back")
	in[vChoose(4)] ^= 1
	_, err = UnpackRevert(in)
	vAssert(err != nil, "only with its selector")
	_, err = UnpackRevert(in[:vChoose(5)])
	vAssert(err != nil, "and whole")
	e := NewError("Bad", Arguments{{Name: "x", Type: typ}})
	v, err := e.Unpack(append(append([]byte{}, e.ID[:4]...), b...))
	l, ok := v.([]interface{})
	vAssert(err == nil && ok && len(l) == 1 && l[0] == s, "an error with its arguments")
	vReach("revert")
}
