//verif:pkg abi

package abi

import (
	"bytes"
	"math/big"
)

func vxLayout(l []vxT) {
	a := vxTypesOf(l)
	b, err := a.Pack(vxValues(l)...)
	vAssert(err == nil, "packed")
	vAssert(len(b)%32 == 0, "whole words")
	vAssert(bytes.Equal(b, vxJoin(l)), "static values in place, the others behind at their offsets, all padded")
	c, err := a.PackValues(vxValues(l))
	vAssert(err == nil && bytes.Equal(b, c), "packed from a list")
	vReach("layout")
}

func VH_Leaves() { vxLayout(vxBetween(vxLeaf(vChoose(vxLeaves)))) }

func VH_Shapes() { vxLayout(vxBetween(vxShape(vChoose(vxShapes)))) }

func VH_Pairs() {
	n := vBound("shapes in pairs", 12, vxShapes)
	vxLayout([]vxT{vxShape(vChoose(n)), vxLeaf(18), vxShape(vChoose(n))})
}

// Pointers to values are packed as the values, and values are left alone.
func VH_Pointers() {
	x := vU16()
	s := vBytes(2)
	keep := append([]byte{}, s...)
	n := big.NewInt(vI64())
	was := new(big.Int).Set(n)
	l := []vxT{{name: "uint16", val: &x, enc: vxWord(vxBE(uint64(x), 2), 0)}, {name: "bytes", val: &s, dyn: true, enc: append(vxNumWord(2), vxPad(s)...)}}
	vxLayout(l)
	typ, err := NewType("int256", "", nil)
	vAssert(err == nil, "type")
	_, err = Arguments{{Type: typ}}.Pack(n)
	vAssert(err == nil && n.Cmp(was) == 0 && bytes.Equal(s, keep), "values are kept")
	vReach("pointers")
}

// The signature of a type is the canonical one, sizes of arrays included.
func VH_Names() {
	k := vChoose(vxShapes)
	x := vxShape(k)
	typ, err := NewType(x.name, "", x.comps)
	vAssert(err == nil, "type")
	want := []string{"uint16[]", "bytes[]", "uint16[2]", "bytes[2]", "uint16[2][3]", "uint16[2][]", "uint16[][2]", "bytes[][]", "(uint16,bool,int8)", "(uint16,bytes,address)",
		"(uint16[2],(bool,uint16),uint16)", "((uint16,bytes),(bool,uint16),bytes,uint16)", "(uint16,bool)[]", "(bytes,bool)[]", "(uint16,bool)[2]", "(bytes,bool)[2]", "(uint16[],uint16,bytes[1])"}[k]
	vAssert(typ.String() == want, "name of the type")
	vAssert(isDynamicType(typ) == x.dyn, "dynamic")
	if x.dyn {
		vAssert(getTypeSize(typ) == 32, "an offset is a word")
	} else {
		vAssert(getTypeSize(typ) == len(x.enc), "size of a static type")
	}
	vReach("names")
}

func VH_Types() {
	for _, s := range []string{"bytes33", "bytes256", "uint", "int", "uint8[", "uint8[1][", "foo", "", "uint8[1 2]", "[]"} {
		_, err := NewType(s, "", nil)
		vAssert(err != nil, "not a type: "+s)
	}
	vReach("types")
}
