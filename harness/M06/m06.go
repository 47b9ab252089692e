//verif:pkg math

package math

import "math/big"

func vxRat() (n, d *big.Int, r *big.Rat) {
	n = new(big.Int).SetUint64(uint64(vU32() & uint32(1<<vBound("numerator bits", 6, 16)-1)))
	d = big.NewInt([]int64{1, 3, 1000, 2, 7, 10}[vChoose(vBound("denominators", 3, 6))])
	switch vChoose(3) {
	case 1: // around the limits of 64 bits
		n.Add(n, new(big.Int).Mul(d, new(big.Int).SetUint64(1<<63-128)))
	case 2: // beyond the precision of a float64
		n.Add(n, new(big.Int).Mul(d, new(big.Int).SetUint64(1<<60+1)))
	}
	if vChoose(2) == 1 {
		n.Neg(n)
	}
	return n, d, new(big.Rat).SetFrac(n, d)
}

// vxBetween: lo <= n/d < lo+1 for the floor lo.
func vxFloorOK(x int64, n, d *big.Int) bool {
	rest := new(big.Int).Sub(n, new(big.Int).Mul(big.NewInt(x), d))
	return rest.Sign() >= 0 && rest.Cmp(d) < 0
}

func VH_Ceil() {
	n, d, r := vxRat()
	x, nomeans := RatToInt64(r)
	// ceil(n/d) = -floor(-n/d)
	top := new(big.Int).Mul(d, new(big.Int).SetUint64(1<<63-1))
	bot := new(big.Int).Mul(d, new(big.Int).Lsh(big.NewInt(-1), 63))
	bot.Sub(bot, d)
	vAssert(nomeans == (n.Cmp(top) > 0 || n.Cmp(bot) <= 0), "out of range exactly when the result does not fit")
	if !nomeans {
		vAssert(vxFloorOK(-x, new(big.Int).Neg(n), d) || x == -1<<63, "smallest integer not less than the rational")
	}
	vReach("ceil")
}

func VH_Floor() {
	n, d, r := vxRat()
	x, nomeans := RatToInt64Floor(r)
	top := new(big.Int).Mul(d, new(big.Int).SetUint64(1<<63))
	bot := new(big.Int).Mul(d, new(big.Int).Lsh(big.NewInt(-1), 63))
	vAssert(nomeans == (n.Cmp(top) >= 0 || n.Cmp(bot) < 0), "out of range exactly when the result does not fit")
	if !nomeans {
		vAssert(vxFloorOK(x, n, d), "greatest integer not above the rational")
	}
	vReach("floor")
}

func VH_MulRat() {
	i := int64(vU32()&uint32(1<<vBound("factor bits", 10, 16)-1)) - 5
	switch vChoose(4) {
	case 1:
		i += 1 << 60
	case 2:
		i += -1 << 60
	case 3:
		i += 1<<63 - 1 - 32768
	}
	f := [][2]int64{{1, 3}, {2, 3}, {0, 1}, {1, 1}, {99, 100}, {1, 1000}}[vChoose(vBound("fractions", 3, 6))]
	n, d := f[0], f[1]
	r := big.NewRat(n, d)
	x := Int64MulRat(i, r)
	p := new(big.Int).Mul(big.NewInt(i), big.NewInt(n))
	vAssert(vxFloorOK(-x, p.Neg(p), big.NewInt(d)), "smallest integer not less than the product")
	vAssert(r.Num().Cmp(big.NewInt(n)) == 0 && r.Denom().Cmp(big.NewInt(d)) == 0, "the rational is kept")
	vReach("mulrat")
}
