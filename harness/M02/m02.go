//verif:pkg math

package math

import "math/big"

// vxDigits reads a text the way the documentation says: empty is zero, 0x or
// 0X starts hexadecimal, anything else is decimal.
func vxDigits(s string, signed bool) (v *big.Int, ok bool) {
	if s == "" {
		return new(big.Int), true
	}
	base := int64(10)
	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
		base, s = 16, s[2:]
	}
	neg := false
	if signed && len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		neg, s = s[0] == '-', s[1:]
	}
	if len(s) == 0 {
		return nil, false
	}
	v = new(big.Int)
	for i := 0; i < len(s); i++ {
		var d byte
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			d = c - '0'
		case base == 16 && c >= 'a' && c <= 'f':
			d = c - 'a' + 10
		case base == 16 && c >= 'A' && c <= 'F':
			d = c - 'A' + 10
		default:
			return nil, false
		}
		v.Mul(v, big.NewInt(base))
		v.Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v, true
}

// Every short text: parsed like a number or refused.
func VH_Parse64() {
	s := vStr(vChoose(vBound("text length", 5, 8)))
	want, ok := vxDigits(s, false)
	u, got := ParseUint64(s)
	vAssert(got == ok, "accepted exactly when it is a number")
	if ok {
		vAssert(want.IsUint64() && want.Uint64() == u, "value of the text")
	}
	var h HexOrDecimal64
	err := h.UnmarshalText([]byte(s))
	vAssert((err == nil) == ok, "UnmarshalText accepts the same")
	if ok {
		vAssert(uint64(h) == u, "UnmarshalText value")
		vAssert(MustParseUint64(s) == u, "MustParseUint64 value")
	} else {
		vAssert(vPanics(func() { MustParseUint64(s) }), "MustParseUint64 panics")
	}
	vReach("parse64")
}

// Texts around the limit of 64 bits.
func VH_Limit64() {
	var s string
	if vChoose(2) == 0 {
		s = "0x" + []string{"", "0", "1", "00"}[vChoose(4)] + vxHexDigits(16)
	} else {
		s = []string{"", "0", "1", "9"}[vChoose(4)] + "18446744073709551" + vxDecDigits(3)
	}
	want, ok := vxDigits(s, false)
	vAssert(ok, "a number")
	u, got := ParseUint64(s)
	vAssert(got == want.IsUint64(), "accepted exactly within 64 bits")
	if got {
		vAssert(want.Uint64() == u, "value at the limit")
	}
	vReach("limit64")
}

func vxHexDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		x := byte(15)
		if i < 1 || i > n-2 {
			x = vU8()
			vAssume(x < 16)
		}
		b[i] = "0123456789abcdef"[vConc(int(x))]
	}
	return string(b)
}

func vxDecDigits(n int) string {
	b := make([]byte, n)
	for i := range b {
		x := vU8()
		vAssume(x < 10)
		b[i] = '0' + x
	}
	return string(b)
}

func VH_Text64() {
	x := vU64()
	if vChoose(2) == 0 {
		x &= 0xfff
	}
	b, err := HexOrDecimal64(x).MarshalText()
	vAssert(err == nil, "MarshalText succeeds")
	var h HexOrDecimal64
	vAssert(h.UnmarshalText(b) == nil && uint64(h) == x, "text of a 64-bit number reads back")
	vReach("text64")
}

func VH_Parse256() {
	s := vStr(vChoose(vBound("text length", 5, 8)))
	for i := 0; i < len(s); i++ {
		vAssume(s[i] != '_') // digit separators are only valid with base 0
	}
	want, ok := vxDigits(s, true)
	v, got := ParseBig256(s)
	vAssert(got == ok, "accepted exactly when it is a number")
	if ok {
		vAssert(v.Cmp(want) == 0, "value of the text")
		vAssert(MustParseBig256(s).Cmp(want) == 0, "MustParseBig256 value")
	} else {
		vAssert(vPanics(func() { MustParseBig256(s) }), "MustParseBig256 panics")
	}
	var h HexOrDecimal256
	vAssert((h.UnmarshalText([]byte(s)) == nil) == ok, "UnmarshalText accepts the same")
	var d Decimal256
	vAssert((d.UnmarshalText([]byte(s)) == nil) == ok, "decimal UnmarshalText accepts the same")
	if ok {
		vAssert((*big.Int)(&h).Cmp(want) == 0 && (*big.Int)(&d).Cmp(want) == 0, "UnmarshalText values")
	}
	vReach("parse256")
}

// Hexadecimal texts around the limit of 256 bits.
func VH_Limit256() {
	s := "0x" + []string{"", "0", "1"}[vChoose(3)] + vxHexDigits(64)
	want, ok := vxDigits(s, false)
	vAssert(ok, "a number")
	v, got := ParseBig256(s)
	vAssert(got == (want.BitLen() <= 256), "accepted exactly within 256 bits")
	if got {
		vAssert(v.Cmp(want) == 0, "value at the limit")
	}
	vReach("limit256")
}

func VH_Text256() {
	n := []int{0, 1, 2, 8, 32}[vChoose(5)]
	x := new(big.Int).SetBytes(vBytes(n))
	h := HexOrDecimal256(*x)
	b, err := h.MarshalText()
	vAssert(err == nil, "MarshalText succeeds")
	var r HexOrDecimal256
	vAssert(r.UnmarshalText(b) == nil && (*big.Int)(&r).Cmp(x) == 0, "hexadecimal text reads back")
	vReach("text256")
}

func VH_Decimal256() {
	x := new(big.Int).SetBytes(vBytes(vChoose(2)))
	x = big.NewInt(int64(vConc(int(x.Uint64()))))
	if vChoose(2) == 1 {
		x = new(big.Int).Sub(BigPow(2, 256), x)
		vAssume(x.BitLen() <= 256)
	}
	d := Decimal256(*x)
	b, err := d.MarshalText()
	vAssert(err == nil, "MarshalText succeeds")
	var r Decimal256
	vAssert(r.UnmarshalText(b) == nil && (*big.Int)(&r).Cmp(x) == 0, "decimal text reads back")
	vAssert(d.String() == string(b), "String is the text")
	var h HexOrDecimal256
	vAssert(h.UnmarshalText(b) == nil && (*big.Int)(&h).Cmp(x) == 0, "decimal text reads back as either")
	vReach("decimal256")
}
