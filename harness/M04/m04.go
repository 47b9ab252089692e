//verif:pkg math

package math

import "math/big"

// vxOpt is nil, zero or any integer of up to n bytes.
func vxOpt(n int) *big.Int {
	switch vChoose(3) {
	case 0:
		return nil
	case 1:
		return new(big.Int).SetBytes(vBytes(n))
	}
	x := new(big.Int).SetBytes(vBytes(n))
	return x.Neg(x)
}

func vxVal(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return new(big.Int).Set(x)
}

func vxIs(x, y *big.Int) bool { return vxVal(x).Cmp(vxVal(y)) == 0 }

// vxOwn: writing to r does not show in a.
func vxOwn(r, a *big.Int, what string) {
	if r == nil || a == nil {
		return
	}
	o := new(big.Int).Set(a)
	vAssert(r != a, what+": a number of its own")
	r.Add(r, big.NewInt(1))
	vAssert(a.Cmp(o) == 0, what+": argument not shared")
	r.Sub(r, big.NewInt(1))
}

func VH_Arith() {
	size := vBound("operand bytes", 9, 20)
	x, a := vxOpt(size), vxOpt(size)
	ox, oa := vxVal(x), vxVal(a)
	b := (*BigInt)(x)
	viaInt := vChoose(2) == 1
	var r *big.Int
	want := new(big.Int)
	op := vChoose(2)
	switch op {
	case 0:
		if viaInt {
			r = (*big.Int)(b.AddInt(a))
		} else {
			r = (*big.Int)(b.Add((*BigInt)(a)))
		}
		want.Add(ox, oa)
	case 1:
		if viaInt {
			r = (*big.Int)(b.SubInt(a))
		} else {
			r = (*big.Int)(b.Sub((*BigInt)(a)))
		}
		want.Sub(ox, oa)
	}
	vAssert(vxIs(r, want), "exact result")
	vAssert(vxIs(a, oa), "the operand is kept")
	vxOwn(r, a, "operation")
	vReach("arith")
}

func VH_Mul() {
	size := vBound("factor bytes", 3, 5)
	x, a := vxOpt(size), vxOpt(size)
	ox, oa := vxVal(x), vxVal(a)
	b := (*BigInt)(x)
	r := b.MulInt(a)
	vAssert(vxIs((*big.Int)(r), new(big.Int).Mul(ox, oa)), "exact product")
	vAssert(vxIs(a, oa), "the operand is kept")
	vxOwn((*big.Int)(r), a, "product")
	r2 := NewBigInt(ox).Mul((*BigInt)(a))
	vAssert(vxIs((*big.Int)(r2), new(big.Int).Mul(ox, oa)), "exact product of wrappers")
	vReach("mul")
}

func VH_Div() {
	var x, a *big.Int
	if k := vChoose(vBound("divisors", 8, 14)); k == 0 {
		a, x = vxOpt(1), vxOpt(1)
	} else {
		a, x = big.NewInt([]int64{0, 10, -3, 1, 255, 256, -1, 1000, 2, 3, 7, -2, -10}[k-1]), vxOpt(vBound("dividend bytes", 2, 3))
	}
	ox, oa := vxVal(x), vxVal(a)
	b := (*BigInt)(x)
	if oa.Sign() == 0 {
		vAssert(vPanics(func() { b.DivInt(a) }), "division by zero panics")
		return
	}
	q := b.DivInt(a)
	vAssert((x == nil) == (q == nil), "nil divided is nil")
	// Euclidean quotient: 0 <= x - q*a < |a|
	rest := new(big.Int).Sub(ox, new(big.Int).Mul(vxVal((*big.Int)(q)), oa))
	vAssert(rest.Sign() >= 0 && rest.Cmp(new(big.Int).Abs(oa)) < 0, "exact quotient")
	vAssert(vxIs(a, oa), "the operand is kept")
	vxOwn((*big.Int)(q), a, "quotient")
	q2 := NewBigInt(ox).Div((*BigInt)(a))
	vAssert(x == nil || vxIs((*big.Int)(q2), (*big.Int)(q)), "both forms agree")
	vReach("div")
}

func VH_SubNotLessZero() {
	x, s := vxOpt(9), vxOpt(9)
	ox, os := vxVal(x), vxVal(s)
	b := (*BigInt)(x)
	left, act := b.SubIntNotLessZero(s)
	l, a := (*big.Int)(left), (*big.Int)(act)
	vAssert(vxIs(x, ox) && vxIs(s, os), "operands kept")
	switch {
	case os.Sign() <= 0 || ox.Sign() <= 0:
		vAssert(act == nil && vxIs(l, ox), "nothing subtracted")
	default:
		m := BigMin(ox, os)
		vAssert(vxIs(a, m), "subtracted what there is")
		vAssert(vxIs(l, new(big.Int).Sub(ox, m)), "what is left")
		vxOwn(a, x, "subtracted")
		vxOwn(a, s, "subtracted")
		vxOwn(l, x, "left")
		vxOwn(l, s, "left")
	}
	vReach("subnot")
}

func VH_AddInts() {
	n := vChoose(3)
	x := vxOpt(2)
	want := vxVal(x)
	var is, os []*big.Int
	for i := 0; i < n; i++ {
		v := vxOpt(2)
		is = append(is, v)
		os = append(os, vxVal(v))
		want.Add(want, vxVal(v))
	}
	r := (*big.Int)((*BigInt)(x).AddInts(is...))
	vAssert(vxIs(r, want), "exact sum")
	for i := range is {
		vAssert(vxIs(is[i], os[i]), "summands kept")
		vxOwn(r, is[i], "sum")
	}
	vReach("addints")
}

func VH_Helpers() {
	x, y := vxOpt(9), vxOpt(9)
	ox, oy := vxVal(x), vxVal(y)
	c := CopyBigInt(x)
	vAssert((c == nil) == (x == nil) && vxIs(c, ox), "CopyBigInt")
	vxOwn(c, x, "CopyBigInt")
	m := MustBigInt(x)
	vAssert(m != nil && vxIs(m, ox), "MustBigInt")
	p := MustPositiveInt(x)
	vAssert((p != nil) == (ox.Sign() > 0) && (p == nil || vxIs(p, ox)), "MustPositiveInt")
	k := MustCreatedBigInt(x, false)
	vAssert(k != nil && vxIs(k, ox), "MustCreatedBigInt")
	vxOwn(k, x, "MustCreatedBigInt")
	vAssert(vxIs(MustCreatedBigInt(x, true), ox), "MustCreatedBigInt of a created number")
	w := CompareBigInt(x, y)
	switch {
	case x == nil && y == nil:
		vAssert(w == 0, "nil equals nil")
	case x == nil:
		vAssert(w < 0, "nil comes first")
	case y == nil:
		vAssert(w > 0, "nil comes first")
	default:
		vAssert(w == ox.Cmp(oy), "CompareBigInt")
	}
	vAssert(CompareBigInt(y, x) == -w, "comparison is antisymmetric")
	s := AddBigInt(CopyBigInt(x), y)
	vAssert(vxIs(s, new(big.Int).Add(ox, oy)), "AddBigInt")
	vAssert(vxIs(y, oy), "AddBigInt keeps the summand")
	vxOwn(s, y, "AddBigInt")
	vReach("helpers")
}

func VH_Wrapper() {
	x, y := vxOpt(9), vxOpt(9)
	ox, oy := vxVal(x), vxVal(y)
	b, o := (*BigInt)(x), (*BigInt)(y)
	vAssert(b.Sign() == ox.Sign(), "Sign")
	vAssert(b.Positive() == (ox.Sign() > 0) && b.Negative() == (ox.Sign() < 0) && b.IsZero() == (ox.Sign() == 0), "predicates")
	vAssert((b.Int() == nil) == (ox.Sign() == 0) && vxIs(b.Int(), ox), "Int")
	vAssert(b.MustInt() != nil && vxIs(b.MustInt(), ox), "MustInt")
	n := NewBigInt(x)
	vAssert((n == nil) == (x == nil) && vxIs((*big.Int)(n), ox), "NewBigInt")
	vxOwn((*big.Int)(n), x, "NewBigInt")
	c := b.Clone()
	vAssert(vxIs((*big.Int)(c), ox), "Clone")
	vxOwn((*big.Int)(c), x, "Clone")
	s := c.SetInt(y)
	vAssert((s == nil) == (y == nil) && vxIs((*big.Int)(s), oy), "SetInt")
	vxOwn((*big.Int)(s), y, "SetInt")
	mp := b.MustPositive()
	vAssert((mp != nil) == (ox.Sign() > 0), "MustPositive")
	if !(b.IsZero() && o.IsZero()) {
		vAssert(b.Compare(o) == CompareBigInt(x, y), "Compare")
		vAssert(b.CompareInt(y) == CompareBigInt(x, y), "CompareInt")
	} else {
		vAssert(b.Compare(o) == 0 && b.CompareInt(y) == 0, "zero and nil are equal")
	}
	u, ok := b.ToUint64()
	vAssert(ok == (x != nil && ox.IsUint64()), "ToUint64 range")
	if ok {
		vAssert(ox.Uint64() == u, "ToUint64 value")
	}
	vAssert(vxIs(x, ox) && vxIs(y, oy), "operands kept")
	vReach("wrapper")
}

func VH_MulRat() {
	x := vxOpt(vBound("multiplied bytes", 2, 3))
	ox := vxVal(x)
	k := vChoose(vBound("numerators", 6, 9))
	n, d := int64(k-3), []int64{1, 3, 10, 2, 255}[vChoose(vBound("denominators", 3, 5))]
	r := big.NewRat(n, d)
	if k == 0 {
		r = nil
		n = 0
	}
	q := (*BigInt)(x).MulRat(r)
	// floor(x*n/d)
	p := new(big.Int).Mul(ox, big.NewInt(n))
	rest := new(big.Int).Sub(p, new(big.Int).Mul(vxVal((*big.Int)(q)), big.NewInt(d)))
	vAssert(rest.Sign() >= 0 && rest.Cmp(big.NewInt(d)) < 0, "MulRat rounds down")
	vReach("mulrat")
}
