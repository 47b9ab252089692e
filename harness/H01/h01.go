//verif:pkg hexutil

package hexutil

import "math/big"

func vxNib(v uint8) uint8 {
	if v < 10 {
		return '0' + v
	}
	return 'a' + v - 10
}

func VH_Bytes() {
	n := vChoose(vBound("bytes", 12, 40) + 1)
	b := vBytes(n)
	orig := append([]byte{}, b...)
	s := Encode(b)
	vAssert(len(s) == 2+2*n && s[:2] == "0x", "Encode: prefix and length")
	for i := 0; i < n; i++ {
		vAssert(vAnd(s[2+2*i] == vxNib(orig[i]>>4), s[3+2*i] == vxNib(orig[i]&15)), "Encode: two lower case digits per byte")
	}
	d, err := Decode(s)
	vAssert(err == nil && len(d) == n, "Decode(Encode(b)) succeeds")
	for i := range d {
		vAssert(vAnd(d[i] == orig[i], b[i] == orig[i]), "Decode(Encode(b)) = b")
	}
	vReach("bytes")
}

func VH_Uint64() {
	x := vU64()
	s := EncodeUint64(x)
	vAssert(len(s) >= 3 && s[:2] == "0x", "EncodeUint64: prefix")
	// digits: lower case hex, no leading zero unless the number is zero
	var y uint64
	for i := 2; i < len(s); i++ {
		c := s[i]
		dec := vAnd(c >= '0', c <= '9')
		vAssert(vOr(dec, vAnd(c >= 'a', c <= 'f')), "EncodeUint64: lower case digits")
		y = y<<4 | uint64(vIte8(dec, c-'0', c-'a'+10))
	}
	vAssert(len(s) <= 18, "EncodeUint64: at most 16 digits")
	vAssert(y == x, "EncodeUint64: value")
	vAssert(len(s) == 3 || s[2] != '0', "EncodeUint64: no leading zero")
	d, err := DecodeUint64(s)
	vAssert(err == nil, "DecodeUint64(EncodeUint64(x)) succeeds")
	vAssert(d == x, "DecodeUint64(EncodeUint64(x)) = x")
	vReach("uint64")
}

func VH_Big() {
	n := vChoose(vBound("bytes of a big number", 10, 33))
	if n == 9 && vChoose(2) == 1 {
		n = 32
	}
	b := vBytes(n)
	x := new(big.Int).SetBytes(b)
	s := EncodeBig(x)
	vAssert(len(s) >= 3 && s[:2] == "0x", "EncodeBig: prefix")
	vAssert(len(s) == 3 || s[2] != '0', "EncodeBig: no leading zero")
	ok := true
	for i := 2; i < len(s); i++ {
		c := s[i]
		ok = vAnd(ok, vOr(vAnd(c >= '0', c <= '9'), vAnd(c >= 'a', c <= 'f')))
	}
	vAssert(ok, "EncodeBig: lower case digits")
	d, err := DecodeBig(s)
	vAssert(err == nil && d != nil, "DecodeBig(EncodeBig(x)) succeeds")
	vAssert(d.Cmp(new(big.Int).SetBytes(b)) == 0, "DecodeBig(EncodeBig(x)) = x")
	vReach("big")
}
