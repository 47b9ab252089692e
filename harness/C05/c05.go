//verif:pkg .

package common

import (
	"math/big"
)

func vxEpochSize() {
	k := vChoose(vBound("epoch and era sizes", 3, 6))
	BlocksInEpoch = []uint64{1000, 1, 7, 256, 5000, 1000}[k]
	EpochsInEra = []uint64{36, 5, 36, 1, 7, 1}[k]
}

func VH_Split() {
	vxEpochSize()
	h := Height(vU64())
	e, b := h.Split()
	vAssert(e == h.EpochNum() && b == h.BlockNum(), "Split agrees with EpochNum and BlockNum")
	if uint64(h) == 1<<64-1 {
		vAssert(h.IsNil() && e.IsNil() && b.IsNil() && h.EraNum().IsNil() && h.UsefulEpoch() == 0 && h.UsefulBlock() == 0, "nil height")
		vAssert(!h.IsFirstOfEpoch() && !h.IsLastOfEpoch(), "nil height is in no epoch")
		vReach("nil")
		return
	}
	vAssert(!h.IsNil(), "not nil")
	vAssert(b.IsValid() && !b.IsNil(), "valid block number")
	vAssert(ToHeight(e, b) == h, "epoch and block recombine to the height")
	vAssert(h.UsefulEpoch() == e && h.UsefulBlock() == b, "useful epoch and block")
	first, last := e.FirstHeight(), e.LastHeight()
	vAssert(!first.IsNil() && first <= h && uint64(h)-uint64(first) == uint64(b), "the epoch starts at or before the height")
	vAssert(last.IsNil() || (h <= last && uint64(last)-uint64(first) == BlocksInEpoch-1), "the epoch ends at or after the height")
	vAssert(h.IsFirstOfEpoch() == (h == first) && b.IsFirstOfEpoch() == (h == first), "first of its epoch")
	vAssert(b.IsLastOfEpoch() == (!last.IsNil() && h == last), "last of its epoch")
	r := h.EraNum()
	n := BlocksInEpoch * EpochsInEra
	lo := new(big.Int).Mul(new(big.Int).SetUint64(uint64(r)), new(big.Int).SetUint64(n))
	d := new(big.Int).Sub(new(big.Int).SetUint64(uint64(h)), lo)
	vAssert(d.Sign() >= 0 && d.Cmp(new(big.Int).SetUint64(n)) < 0, "the height lies in its era")
	vReach("split")
}

// Around every border between epochs.
func VH_Border() {
	vxEpochSize()
	e := EpochNum(vU64() >> 13)
	at := []uint64{0, 1, BlocksInEpoch / 2, BlocksInEpoch - 2, BlocksInEpoch - 1}[vChoose(5)]
	if at >= BlocksInEpoch {
		return
	}
	h := Height(uint64(e)*BlocksInEpoch + at)
	e1, b1 := h.Split()
	vAssert(e1 == e && uint64(b1) == at, "the height lies in its epoch")
	vAssert(h.IsLastOfEpoch() == (at == BlocksInEpoch-1) && b1.IsLastOfEpoch() == h.IsLastOfEpoch(), "the last block of an epoch")
	vAssert(h.IsFirstOfEpoch() == (at == 0) && b1.IsFirstOfEpoch() == h.IsFirstOfEpoch(), "the first block of an epoch")
	vAssert(h.IsLastOfEpoch() == (h == e.LastHeight()) && h.IsFirstOfEpoch() == (h == e.FirstHeight()), "first and last height")
	e2, b2 := (h + 1).Split()
	if at == BlocksInEpoch-1 {
		vAssert(e2 == e+1 && b2 == 0 && h+1 == e2.FirstHeight(), "the next epoch follows the last block")
	} else {
		vAssert(e2 == e && b2 == b1+1, "the next block is in the same epoch")
	}
	vReach("border")
}

func VH_ToHeight() {
	BlocksInEpoch = []uint64{1000, 1, 7}[vChoose(vBound("epoch sizes", 1, 3))]
	e, b := EpochNum(vU64()), BlockNum(vU32())
	h := ToHeight(e, b)
	v := new(big.Int).Mul(new(big.Int).SetUint64(uint64(e)), new(big.Int).SetUint64(BlocksInEpoch))
	f := new(big.Int).Set(v)
	l := new(big.Int).Add(v, new(big.Int).SetUint64(BlocksInEpoch-1))
	v.Add(v, new(big.Int).SetUint64(uint64(b)))
	valid := !e.IsNil() && uint64(b) < BlocksInEpoch && v.IsUint64()
	vAssert(b.IsValid() == (uint64(b) < BlocksInEpoch), "valid block numbers")
	if valid {
		vAssert(v.Cmp(new(big.Int).SetUint64(uint64(h))) == 0, "ToHeight")
		vReach("height")
	} else {
		vAssert(h.IsNil(), "no height")
		vReach("none")
	}
	fh, lh := e.FirstHeight(), e.LastHeight()
	if e.IsNil() || !f.IsUint64() {
		vAssert(fh.IsNil(), "no first height")
	} else {
		vAssert(f.Cmp(new(big.Int).SetUint64(uint64(fh))) == 0, "first height")
	}
	if e.IsNil() || !l.IsUint64() {
		vAssert(lh.IsNil(), "no last height")
	} else {
		vAssert(l.Cmp(new(big.Int).SetUint64(uint64(lh))) == 0, "last height")
	}
}

// vxOrd: nil sorts before every number.
func vxOrd(a, b uint64) int {
	switch {
	case a == b:
		return 0
	case a == 1<<64-1:
		return -1
	case b == 1<<64-1:
		return 1
	case a < b:
		return -1
	}
	return 1
}

func VH_Order() {
	a, b := vU64(), vU64()
	c := vxOrd(a, b)
	vAssert(Height(a).Compare(Height(b)) == c && EpochNum(a).Compare(EpochNum(b)) == c && EraNum(a).Compare(EraNum(b)) == c, "Compare puts nil first")
	d, r := Height(a).Diff(Height(b))
	d2, r2 := EpochNum(a).Diff(EpochNum(b))
	// positions on the line that starts with nil
	x := uint64(a + 1)
	y := uint64(b + 1)
	want := x - y
	if x < y {
		want = y - x
	}
	vAssert(r == c && r2 == c, "Diff gives the order")
	vAssert(d == want && d2 == want, "Diff gives the distance")
	ha, hb := Height(a), Height(b)
	ea, eb := EraNum(a), EraNum(b)
	pa, pb := EpochNum(a), EpochNum(b)
	vAssert(ha.Equal(&hb) == (a == b) && ea.Equal(&eb) == (a == b), "Equal")
	vAssert(ea.Cmp(&eb) == c && pa.Cmp(&pb) == c, "Cmp")
	vAssert((*EraNum)(nil).Cmp(&ea) == -1 && ea.Cmp(nil) == 1 && (*EraNum)(nil).Cmp(nil) == 0 && !ha.Equal(nil) && !(*Height)(nil).Equal(&ha), "nil pointers first")
	hc, ec, pc := ha.Clone(), ea.Clone(), pa.Clone()
	*hc++
	*ec++
	*pc++
	vAssert(uint64(ha) == a && uint64(ea) == a && uint64(pa) == a && uint64(*hc) == a+1 && uint64(*ec) == a+1 && uint64(*pc) == a+1, "clones are independent")
	vReach("order")
}

func VH_Bytes() {
	a := vU64()
	h := Height(a)
	b := h.Bytes()
	vAssert(len(b) == 8 && BytesToHeight(b) == h, "height through bytes")
	x, y := EpochNum(a).Bytes(), EraNum(a).Bytes()
	z := BlockNum(a).Bytes()
	for i := 0; i < 8; i++ {
		vAssert(b[i] == byte(a>>(8*(7-i))) && x[i] == b[i] && y[i] == b[i], "big endian")
	}
	vAssert(len(z) == 4 && z[3] == b[7] && z[0] == b[4], "block number bytes")
	bs := vBytes(vChoose(12))
	var w uint64
	for _, c := range bs {
		w = w<<8 | uint64(c)
	}
	vAssert(uint64(BytesToHeight(bs)) == w, "the rightmost bytes make the height")
	g, ok := Height(0).FromBig(new(big.Int).SetUint64(a))
	vAssert(ok && g == h, "height from a big integer")
	big1 := new(big.Int).Lsh(new(big.Int).SetUint64(a), 8)
	if g, ok = Height(0).FromBig(big1); a>>56 != 0 {
		vAssert(!ok && g.IsNil(), "too large for a height")
	} else {
		vAssert(ok && uint64(g) == a<<8, "height from a larger big integer")
	}
	_, ok = Height(0).FromBig(big.NewInt(-1))
	_, ok2 := Height(0).FromBig(nil)
	vAssert(!ok && !ok2, "no height from nil or a negative number")
	vReach("bytes")
}

func VH_Remainder() {
	h := Height(vU64())
	n := Height([]uint64{0, 1, 2, 5, 1000, 1 << 40}[vChoose(6)])
	r := h.RemoveRemainder(n)
	switch {
	case n <= 1:
		vAssert(r == h, "nothing removed")
	case h.IsNil():
		vAssert(r.IsNil(), "nil stays nil")
	default:
		vAssert(r <= h && h-r < n && r/n*n == r, "largest multiple not above")
	}
	vReach("remainder")
}

// The blocks of an epoch are distributed over the committee without loss.
func VH_Propose() {
	BlocksInEpoch = []uint64{1000, 7}[vChoose(2)]
	n := 1 + vChoose(vBound("committee", 8, 40))
	sum := 0
	for i := 0; i < n; i++ {
		p := CommID(i).ShouldPropose(n)
		vAssert(p >= int(BlocksInEpoch)/n && p <= int(BlocksInEpoch)/n+1, "fair share")
		sum += p
	}
	vAssert(sum == int(BlocksInEpoch), "every block has a proposer")
	vReach("propose")
}
