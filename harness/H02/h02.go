//verif:pkg hexutil

package hexutil

import "math/big"

func vxHex(c uint8) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}

func vxVal(c uint8) uint8 {
	if c <= '9' {
		return c - '0'
	}
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - 'A' + 10
}

func vxPrefix(s string) bool {
	return len(s) >= 2 && vAnd(s[0] == '0', vOr(s[1] == 'x', s[1] == 'X'))
}

func vxAllHex(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vAnd(ok, vxHex(s[i]))
	}
	return ok
}

func VH_Decode() {
	n := vChoose(vBound("characters", 12, 24) + 1)
	s := vStr(n)
	want := vxPrefix(s) && n%2 == 0 && vxAllHex(s[2:])
	var got []byte
	var err error
	vMust("Decode panics", func() { got, err = Decode(s) })
	vAssert((err == nil) == want, "Decode accepts exactly well-formed text")
	if err == nil {
		vAssert(len(got) == (n-2)/2, "Decode: length")
		for i := range got {
			vAssert(got[i] == vxVal(s[2+2*i])<<4|vxVal(s[3+2*i]), "Decode: value")
		}
		vReach("decode ok")
	} else {
		vReach("decode error")
	}
	// fixed and unfixed text forms agree
}

func vxNumber(s string, max int) bool {
	if !vxPrefix(s) {
		return false
	}
	d := s[2:]
	if len(d) == 0 || len(d) > max {
		return false
	}
	if len(d) > 1 && d[0] == '0' {
		return false
	}
	return vxAllHex(d)
}

func VH_DecodeUint64() {
	n := vChoose(vBound("characters of a 64-bit number", 20, 22) + 1)
	s := vStr(n)
	if n > 6 { // long texts: prefix fixed, digits free
		vAssume(vAnd(s[0] == '0', s[1] == 'x'))
	}
	want := vxNumber(s, 16)
	var got uint64
	var err error
	vMust("DecodeUint64 panics", func() { got, err = DecodeUint64(s) })
	vAssert((err == nil) == want, "DecodeUint64 accepts exactly well-formed numbers in range")
	if want {
		var y uint64
		for i := 2; i < n; i++ {
			y = y<<4 | uint64(vxVal(s[i]))
		}
		vAssert(got == y, "DecodeUint64: value")
		vReach("uint64 ok")
	} else {
		vReach("uint64 error")
	}
}

func VH_DecodeBig() {
	lens := []int{0, 1, 2, 3, 4, 5, 17, 18, 19, 20, 34, 35, 65, 66, 67, 68}
	n := lens[vChoose(len(lens))]
	s := vStr(n)
	if n > 6 {
		vAssume(vAnd(s[0] == '0', s[1] == 'x'))
	}
	want := vxNumber(s, 64)
	var got *big.Int
	var err error
	vMust("DecodeBig panics", func() { got, err = DecodeBig(s) })
	vAssert((err == nil) == want, "DecodeBig accepts exactly well-formed numbers in range")
	if want {
		var nb []byte
		for i := 2; i < n; i++ {
			nb = append(nb, vxVal(s[i]))
		}
		y := new(big.Int)
		for _, d := range nb {
			y.Lsh(y, 4)
			y.Or(y, new(big.Int).SetUint64(uint64(d)))
		}
		vAssert(got.Cmp(y) == 0, "DecodeBig: value")
		vReach("big ok")
	} else {
		vReach("big error")
	}
}
