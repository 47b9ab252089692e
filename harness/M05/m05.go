//verif:pkg math

package math

import "math/big"

// vxPower multiplies the repeated squares of the base that belong to the bits
// of the exponent.
func vxPower(base *big.Int, e uint64) *big.Int {
	r := big.NewInt(1)
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	sq := new(big.Int).Set(base)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r.And(r.Mul(r, sq), m)
		}
		sq.And(sq.Mul(sq, sq), m)
	}
	return r
}

func vxExp(base *big.Int, e uint64) {
	exp := new(big.Int).SetUint64(e)
	ob, oe := new(big.Int).Set(base), new(big.Int).Set(exp)
	r := Exp(base, exp)
	vAssert(base.Cmp(ob) == 0, "the base is kept")
	vAssert(exp.Cmp(oe) == 0, "the exponent is kept")
	vAssert(r.Cmp(vxPower(ob, e)) == 0, "base to the exponent modulo 2^256")
	vAssert(r != base && r != exp, "a new number")
}

// Any base of the size, exponents up to the bound.
func VH_Base() {
	n := []int{1, 2, 32}[vChoose(vBound("sizes of the base", 2, 3))]
	base := new(big.Int).SetBytes(vBytes(n))
	if n < 3 && vChoose(2) == 1 {
		base.Neg(base)
	}
	vxExp(base, uint64(vChoose(vBound("exponent of any base", 5, 9))))
	vReach("base")
}

// Any exponent up to the bound, bases of all kinds.
func VH_Exponent() {
	b := new(big.Int)
	switch vChoose(8) {
	case 0:
	case 1:
		b.SetInt64(1)
	case 2:
		b.SetInt64(2)
	case 3:
		b.SetInt64(-3)
	case 4:
		b.SetInt64(10)
	case 5:
		b.Sub(BigPow(2, 256), big.NewInt(1))
	case 6:
		b.Add(BigPow(2, 300), big.NewInt(7))
	case 7:
		b.SetUint64(1<<64 - 1)
	}
	e := uint64(vU16())
	vAssume(e < uint64(vBound("exponents below", 40, 600)))
	vxExp(b, e)
	vReach("exponent")
}

// Exponents of more than one machine word.
func VH_Words() {
	hi, lo := uint64(vChoose(3)), uint64(vU8())
	vAssume(lo < 16)
	x := new(big.Int).Lsh(new(big.Int).SetUint64(hi), 64)
	x.Add(x, new(big.Int).SetUint64(lo))
	vAssert(Exp(big.NewInt(1), x).Cmp(big.NewInt(1)) == 0, "one to any exponent")
	m1 := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	p := Exp(m1, x)
	if lo&1 == 0 {
		vAssert(p.Cmp(big.NewInt(1)) == 0, "minus one to an even exponent")
	} else {
		vAssert(p.Cmp(m1) == 0, "minus one to an odd exponent")
	}
	// two to the 2^64 and more is zero
	vAssert(hi == 0 || Exp(big.NewInt(2), x).Sign() == 0, "an exponent of two words")
	// 2^255+1 has order two
	h := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1))
	p = Exp(h, x)
	vAssert(lo&1 == 1 || p.Cmp(big.NewInt(1)) == 0, "a square root of one")
	vReach("words")
}

// The same number as base and exponent.
func VH_Alias() {
	e := vChoose(vBound("base and exponent", 6, 16))
	x := big.NewInt(int64(e))
	r := Exp(x, x)
	vAssert(r.Cmp(vxPower(big.NewInt(int64(e)), uint64(e))) == 0, "base and exponent are one number")
	vAssert(x.Cmp(big.NewInt(int64(e))) == 0, "the number is kept")
	vReach("alias")
}
