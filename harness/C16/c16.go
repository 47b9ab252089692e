//verif:pkg .

package common

import "bytes"

func vxPre(n int) []byte { return vBytes(vChoose(n)) }

func VH_Pair() {
	a, b := vxPre(4), vxPre(4)
	oa, ob := append([]byte{}, a...), append([]byte{}, b...)
	h := HashPair(a, b)
	vAssert(bytes.Equal(h, Hash256NoError(append(append([]byte{}, oa...), ob...))), "the pair is hashed in its order")
	x, err := HashPairOrder(true, a, b)
	y, err2 := HashPairOrder(false, b, a)
	vAssert(err == nil && err2 == nil && bytes.Equal(x, h) && bytes.Equal(y, h), "the flag tells which side comes first")
	vAssert(bytes.Equal(a, oa) && bytes.Equal(b, ob), "inputs kept")
	if len(a) == len(b) && !bytes.Equal(a, b) {
		vAssert(!bytes.Equal(HashPair(b, a), h), "the order matters")
		vReach("order")
	}
	h[0] ^= 1
	vAssert(!bytes.Equal(HashPair(a, b), h), "results are fresh")
	vReach("pair")
}

func VH_Forms() {
	a, b := vxPre(3), vxPre(3)
	want := Hash256NoError(a, b)
	x, y := Hash256(a, b), Hash256p(a, b)
	z, err := Hash256WithError(a, b)
	w, err2 := Hash256s(a, b)
	vAssert(err == nil && err2 == nil && bytes.Equal(x[:], want) && bytes.Equal(y[:], want) && bytes.Equal(z[:], want) && bytes.Equal(w, want) && bytes.Equal(SystemHash256(a, b), want), "all forms hash the concatenation")
	vAssert(len(want) == HashLength, "length")
	vReach("forms")
}

func vxSpecial() []byte {
	switch vChoose(6) {
	case 0:
		return nil
	case 1:
		return NilHash.Bytes()
	case 2:
		return EmptyHash.Bytes()
	case 3:
		return EmptyNodeHash.Bytes()
	case 4:
		b := NilHash.Bytes()
		b[vChoose(2)*31] = vU8()
		return b
	}
	b := make([]byte, 31+vChoose(3))
	b[0] = vU8()
	return b
}

func VH_Predicates() {
	a, b := vxSpecial(), vxSpecial()
	nilA, nilB := len(a) == 0 || bytes.Equal(a, NilHash[:]), len(b) == 0 || bytes.Equal(b, NilHash[:])
	vAssert(IsNilHash(a) == nilA, "IsNilHash")
	vAssert(HashSliceEquals(a, b) == ((nilA && nilB) || (!nilA && !nilB && bytes.Equal(a, b))), "HashSliceEquals")
	vAssert(InvalidHash(a) == (len(a) < HashLength || bytes.Equal(a, EmptyHash[:]) || bytes.Equal(a, NilHash[:]) || bytes.Equal(a, EmptyNodeHash[:])), "InvalidHash")
	if len(a) == 32 && len(b) == 32 {
		x, y := BytesToHash(a), BytesToHash(b)
		vAssert(HashEquals(&x, &y) == bytes.Equal(a, b) && x.Equal(&y) == bytes.Equal(a, b), "HashEquals")
		vAssert(HashEquals(nil, &x) == nilA && HashEquals(&x, nil) == nilA && HashEquals(nil, nil), "nil stands for the nil hash")
		vAssert(HashLess(x, y) == (bytes.Compare(a, b) < 0), "HashLess")
		vAssert(x.IsNil() == nilA && x.IsEmpty() == bytes.Equal(a, EmptyHash[:]) && x.IsEmptyNode() == bytes.Equal(a, EmptyNodeHash[:]) && x.Invalid() == InvalidHash(a), "predicates")
		vAssert(HashsEquals([]Hash{x, y}, []Hash{y, x}) == bytes.Equal(a, b) && !HashsEquals([]Hash{x}, []Hash{x, x}) && !HashsEquals(nil, []Hash{}), "lists")
		l := []Hash{x, y}
		c := CopyHashs(l)
		c[0][0] ^= 1
		vAssert(l[0] == x && c[1] == y && CopyHashs(nil) == nil, "copies of lists")
	}
	vReach("predicates")
}

func VH_Position() {
	id, h, i := ChainID(vU32()), Height(vU64()), vU8()
	buf := ToHeaderPosHashBuffer(id, h)
	want := append(append(append([]byte{}, id.Bytes()...), h.Bytes()...), i)
	vAssert(bytes.Equal(buf[:12], want[:12]) && buf[12] == 0, "position of a header")
	vAssert(bytes.Equal(HeaderIndexHash(buf, i), Hash256NoError(want)), "hash of the position")
	vAssert(buf[12] == 0, "the buffer is kept")
	vReach("position")
}

func VH_Object() {
	a := Height(vU64())
	h, err := HashObject(a)
	vAssert(err == nil && bytes.Equal(h, Hash256NoError(a.Bytes())), "an object with a hash value")
	n, err := HashObject(nil)
	vAssert(err == nil && bytes.Equal(n, NilHash[:]), "nil object")
	x := Hash256(vBytes(1))
	e := EncodeHash(x)
	vAssert(e == x, "a hash is its own hash value")
	vReach("object")
}

// One-shot hashing of fixed data (concrete: the function is executed, not idealised).
func VH_Ripemd() {
	h := HashRipemd160([]byte("abc"))
	want := []byte{0x8e, 0xb2, 0x08, 0xf7, 0xe0, 0x5d, 0x98, 0x7a, 0x9b, 0x04, 0x4a, 0x8e, 0x98, 0xc6, 0xb0, 0x87, 0xf1, 0x5a, 0x0b, 0xfc}
	vAssert(bytes.Equal(h, want), "RIPEMD-160 of abc")
	b := vBytes(1)
	vAssert(len(HashRipemd160(b)) == 20, "length of RIPEMD-160")
	vReach("ripemd")
}
