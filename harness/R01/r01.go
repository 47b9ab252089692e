//verif:pkg rlp

package rlp

import (
	"bytes"
	"math/big"

	"github.com/holiman/uint256"
)

func VH_Integers() {
	switch vChoose(7) {
	case 0:
		x, y := vU8(), vU8()
		vxRound(x, &y)
		vAssert(x == y, "uint8")
	case 1:
		x, y := vU16(), vU16()
		vxRound(&x, &y)
		vAssert(x == y, "uint16")
	case 2:
		x, y := vU32(), vU32()
		vxRound(x, &y)
		vAssert(x == y, "uint32")
	case 3:
		x, y := vU64(), vU64()
		vxRound(x, &y)
		vAssert(x == y, "uint64")
	case 4:
		x, y := uint(vU64()), uint(7)
		vxRound(x, &y)
		vAssert(x == y, "uint")
	case 5:
		x, y := uintptr(vU64()), uintptr(7)
		vxRound(x, &y)
		vAssert(x == y, "uintptr")
	case 6:
		x, y := vBool(), vBool()
		vxRound(x, &y)
		vAssert(x == y, "bool")
	}
	vReach("integers")
}

func VH_Big() {
	x := new(big.Int).SetBytes(vBytes(vChoose(vBound("bytes of a big integer", 11, 34))))
	old := vBytes(2)
	y := new(big.Int).SetBytes(old)
	var z big.Int
	var p *big.Int
	vxRound(x, y)
	vxRound(*x, &z)
	vxRound(x, &p)
	vAssert(x.Cmp(y) == 0 && x.Cmp(&z) == 0 && x.Cmp(p) == 0, "big integer")
	if x.Sign() > 0 {
		_, err := EncodeToBytes(new(big.Int).Neg(x))
		vAssert(err == ErrNegativeBigInt, "negative integers are refused")
	}
	var none *big.Int
	vxRound(none, &p)
	vAssert(p.Sign() == 0, "no big integer is zero")
	vReach("big")
}

func VH_U256() {
	x := vxU256()
	y := uint256.NewInt(vU64())
	var z uint256.Int
	var p *uint256.Int
	vxRound(x, y)
	vxRound(*x, &z)
	vxRound(x, &p)
	vAssert(*x == *y && *x == z && *x == *p, "256 bit integer")
	var big1 big.Int
	vxRound(x, &big1)
	vAssert(bytes.Equal(big1.Bytes(), x.Bytes()), "a 256 bit integer is a big integer")
	big1.Lsh(big.NewInt(1), 256)
	b, err := EncodeToBytes(&big1)
	vAssert(err == nil && DecodeBytes(b, y) != nil, "larger integers are refused")
	vReach("256 bit")
}

func VH_Strings() {
	n := vConc([]int{0, 1, 2, 3, 55, 56, 57, 255, 256, 257}[vChoose(10)])
	x := make([]byte, n)
	if n > 0 {
		x[0], x[n-1] = vU8(), vU8()
	}
	y := append(vBytes(vChoose(2)), 1)
	vxRound(x, &y)
	vAssert(bytes.Equal(x, y), "bytes")
	var s string
	vxRound(string(x), &s)
	vAssert(s == string(x), "text")
	var i interface{}
	vxRound(x, &i)
	b, ok := i.([]byte)
	vAssert(ok && bytes.Equal(b, x), "bytes in an interface")
	r := RawValue(x)
	vxRoundRaw(r)
	vReach("strings")
}

func vxRoundRaw(x []byte) {
	e, err := EncodeToBytes(x)
	vAssert(err == nil, "encoded")
	var r RawValue
	vAssert(DecodeBytes(e, &r) == nil && bytes.Equal(r, e), "a raw value is the encoding")
	e2, err := EncodeToBytes(r)
	vAssert(err == nil && bytes.Equal(e2, e), "and is written as it is")
}

func VH_Arrays() {
	var a0, b0 [0]byte
	vxRound(a0, &b0)
	a1, b1 := [1]byte{vU8()}, [1]byte{vU8()}
	vxRound(a1, &b1)
	a3, b3 := [3]byte{vU8(), vU8(), vU8()}, [3]byte{9, 9, 9}
	vxRound(a3, &b3)
	var c3 [3]byte
	vxRound(&a3, &c3)
	var a60, b60 [60]byte
	a60[0], a60[59] = vU8(), vU8()
	vxRound(a60, &b60)
	vAssert(a1 == b1 && a3 == b3 && a3 == c3 && a60 == b60, "byte arrays")
	u, v := [2]uint16{vU16(), vU16()}, [2]uint16{1, 2}
	vxRound(u, &v)
	vAssert(u == v, "array of integers")
	type vxB byte
	n, m := []vxB{vxB(vU8()), 3}, []vxB{}
	vxRound(n, &m)
	vAssert(len(m) == 2 && m[0] == n[0] && m[1] == 3, "named bytes")
	vReach("arrays")
}

func VH_Lists() {
	x := make([]uint16, vChoose(vBound("list length", 4, 6)))
	for i := range x {
		x[i] = vU16()
	}
	var y []uint16
	if vChoose(2) == 0 {
		y = make([]uint16, 2, 3)
	}
	vxRound(x, &y)
	vAssert(len(x) == len(y), "length")
	for i := range x {
		vAssert(x[i] == y[i], "element")
	}
	p := make([]*uint16, len(x))
	for i := range p {
		p[i] = &x[i]
	}
	var q []*uint16
	vxRound(p, &q)
	vAssert(len(p) == len(q), "length of a list of pointers")
	for i := range p {
		vAssert(*p[i] == *q[i], "element behind a pointer")
	}
	vReach("lists")
}

func VH_Long() {
	n := vConc([]int{53, 54, 55, 56, 254, 255, 256}[vChoose(vBound("long lists", 5, 7))])
	x := make([][]byte, 1, 2)
	x[0] = make([]byte, n)
	x[0][0], x[0][n-1] = vU8(), vU8()
	if vChoose(2) == 0 {
		x = append(x, []byte{vU8()})
	}
	var y [][]byte
	vxRound(x, &y)
	vAssert(len(x) == len(y) && bytes.Equal(x[0], y[0]) && bytes.Equal(x[len(x)-1], y[len(x)-1]), "long list")
	var z [][][]byte
	vxRound([][][]byte{x, {}, x}, &z)
	vAssert(len(z) == 3 && len(z[0]) == len(x) && bytes.Equal(z[0][0], x[0]) && len(z[1]) == 0 && len(z[2]) == len(x) && bytes.Equal(z[2][len(x)-1], x[len(x)-1]), "nested lists")
	vReach("long")
}

func VH_Structs() {
	in := vxInner{vBool(), vxText(1)}
	x := vxOuter{A: vU16(), I: in, P: &vxInner{vBool(), vxText(1)}, V: vxVersion{vU16(), 5}}
	for i, n := 0, vChoose(3); i < n; i++ {
		x.L = append(x.L, vxInner{i == 0, "ab"})
	}
	var y vxOuter
	if vChoose(2) == 0 {
		y = vxOuter{A: 3, I: vxInner{true, "x"}, P: &vxInner{true, "yy"}, L: []vxInner{{true, "zzz"}}, V: vxVersion{1, 2}}
	}
	vxRound(&x, &y)
	vAssert(y.A == x.A && y.I == x.I && *y.P == *x.P && y.V == x.V && len(y.L) == len(x.L), "struct")
	for i := range x.L {
		vAssert(x.L[i] == y.L[i], "struct in a list")
	}
	vReach("structs")
}

func VH_Nils() {
	var x, y vxNils
	u, s := vU8(), "q"
	if vChoose(2) == 0 {
		y = vxNils{&u, &[2]byte{4, 5}, &vxInner{true, "o"}, &vxInner{}, &s}
	}
	full := vChoose(32)
	if full&1 > 0 {
		c := vU8()
		vAssume(c > 0) // zero is written as nothing is
		x.U = &c
	}
	if full&2 > 0 {
		x.B = &[2]byte{vU8(), vU8()}
	}
	if full&4 > 0 {
		x.S = &vxInner{vBool(), ""}
	}
	if full&8 > 0 {
		x.L = &vxInner{vBool(), "r"}
	}
	if full&16 > 0 {
		c := string(vBytes(1))
		x.G = &c
	}
	vxRound(&x, &y)
	vAssert((x.U == nil) == (y.U == nil) && (x.B == nil) == (y.B == nil) && (x.S == nil) == (y.S == nil) && (x.L == nil) == (y.L == nil) && (x.G == nil) == (y.G == nil), "nil stays nil, a value a value")
	vAssert((x.U == nil || *x.U == *y.U) && (x.B == nil || *x.B == *y.B) && (x.S == nil || *x.S == *y.S) && (x.L == nil || *x.L == *y.L) && (x.G == nil || *x.G == *y.G), "values behind pointers")
	vReach("nils")
}

func VH_Tail() {
	x := vxTail{A: vU8(), x: 3, N: 4}
	for i, n := 0, vChoose(4); i < n; i++ {
		x.T = append(x.T, vU16())
	}
	y := vxTail{A: 9, x: 5, N: 6}
	if vChoose(2) == 0 {
		y.T = []uint16{1, 2}
	}
	vxRound(x, &y)
	vAssert(x.A == y.A && y.x == 5 && y.N == 6 && len(x.T) == len(y.T), "tail, and what is not encoded is kept")
	for i := range x.T {
		vAssert(x.T[i] == y.T[i], "tail element")
	}
	vReach("tail")
}

func VH_Optional() {
	x := vxOpt{A: vU8(), B: uint16(vxSmall())}
	switch vChoose(3) {
	case 0:
		x.C = vBytes(1)
	case 1:
		x.D = new(big.Int).SetBytes(vBytes(1))
	}
	y := vxOpt{9, 9, []byte{1, 2}, big.NewInt(5)}
	if vChoose(2) == 0 {
		y = vxOpt{}
	}
	vxRound(&x, &y)
	vAssert(x.A == y.A && x.B == y.B && bytes.Equal(x.C, y.C), "optional fields")
	zero := y.D == nil || y.D.Sign() == 0
	vAssert((x.D == nil || x.D.Sign() == 0) == zero && (zero || x.D.Cmp(y.D) == 0), "optional integer")
	vReach("optional")
}

func VH_Recursive() {
	x := vxNode{V: vU8()}
	if vChoose(2) == 0 {
		x.Next = &vxNode{V: vU8(), Kids: []vxNode{{V: vU8()}}}
	}
	for i, n := 0, vChoose(3); i < n; i++ {
		x.Kids = append(x.Kids, vxNode{V: vU8()})
	}
	var y vxNode
	vxRound(&x, &y)
	vAssert(x.V == y.V && len(x.Kids) == len(y.Kids) && (x.Next == nil) == (y.Next == nil), "node")
	if x.Next != nil {
		vAssert(x.Next.V == y.Next.V && y.Next.Next == nil && len(y.Next.Kids) == 1 && y.Next.Kids[0].V == x.Next.Kids[0].V, "next node")
	}
	for i := range x.Kids {
		vAssert(y.Kids[i].V == x.Kids[i].V && y.Kids[i].Next == nil, "child")
	}
	vReach("recursive")
}

func VH_Interfaces() {
	b := vBytes(vChoose(3))
	x := []interface{}{b, []interface{}{}, []interface{}{vU8(), "t"}}
	var y interface{}
	vxRound(x, &y)
	l, ok := y.([]interface{})
	vAssert(ok && len(l) == 3, "list")
	c, ok := l[0].([]byte)
	vAssert(ok && bytes.Equal(c, b), "bytes")
	e, ok := l[1].([]interface{})
	vAssert(ok && len(e) == 0, "empty list")
	e, ok = l[2].([]interface{})
	vAssert(ok && len(e) == 2, "inner list")
	t, ok := e[1].([]byte)
	vAssert(ok && string(t) == "t", "inner text")
	var z interface{}
	vxRound([]interface{}{nil}, &z)
	l, ok = z.([]interface{})
	vAssert(ok && len(l) == 1, "nil in a list")
	e, ok = l[0].([]interface{})
	vAssert(ok && len(e) == 0, "nothing is the empty list")
	vReach("interfaces")
}

// Several values behind one another in one stream.
func VH_Sequence() {
	a, s, in := vU32(), vxText(2), vxInner{vBool(), vxText(1)}
	var buf bytes.Buffer
	vAssert(Encode(&buf, a) == nil && Encode(&buf, s) == nil && Encode(&buf, in) == nil, "written")
	st := NewStream(&buf, 0)
	var b uint32
	var t string
	var out vxInner
	vAssert(st.Decode(&b) == nil && st.Decode(&t) == nil && st.Decode(&out) == nil, "read")
	vAssert(a == b && s == t && in == out, "in order")
	_, _, err := st.Kind()
	vAssert(err != nil, "nothing more")
	vReach("sequence")
}
