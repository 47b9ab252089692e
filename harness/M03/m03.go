//verif:pkg math

package math

import (
	"bytes"
	"math/big"
)

// vxBig is any integer of up to n bytes, of either sign.
func vxBig(n int) *big.Int {
	x := new(big.Int).SetBytes(vBytes(n))
	if vChoose(2) == 1 {
		x.Neg(x)
	}
	return x
}

func vxMod256(x *big.Int) *big.Int { return new(big.Int).Mod(x, new(big.Int).Lsh(big.NewInt(1), 256)) }

func VH_U256() {
	x := vxBig([]int{1, 33, 32, 8, 40}[vChoose(vBound("sizes reduced modulo 2^256", 2, 5))])
	old := new(big.Int).Set(x)
	r := U256(x)
	vAssert(r.Cmp(vxMod256(old)) == 0, "U256 is the residue modulo 2^256")
	vAssert(r == x, "U256 works in place")
	y := new(big.Int).Set(old)
	if vChoose(3) != 0 {
		vReach("u256")
		return
	}
	b := U256Bytes(y)
	vAssert(len(b) == 32, "U256Bytes length")
	vAssert(new(big.Int).SetBytes(b).Cmp(vxMod256(old)) == 0, "U256Bytes value")
	vReach("u256")
}

func VH_S256() {
	x := new(big.Int).SetBytes(vBytes([]int{1, 31, 32}[vChoose(3)]))
	old := new(big.Int).Set(x)
	r := S256(x)
	vAssert(x.Cmp(old) == 0, "S256 keeps its argument")
	vAssert(vxMod256(r).Cmp(old) == 0, "S256 is congruent")
	half := new(big.Int).Lsh(big.NewInt(1), 255)
	vAssert(r.Cmp(half) < 0 && r.Cmp(new(big.Int).Neg(half)) >= 0, "S256 is a signed 256-bit number")
	vReach("s256")
}

func VH_Padded() {
	x := new(big.Int).SetBytes(vBytes(vChoose(vBound("bytes", 10, 34))))
	old := new(big.Int).Set(x)
	n := vChoose(vBound("padded length", 12, 36))
	b := PaddedBigBytes(x, n)
	vAssert(len(b) >= n, "at least the requested length")
	vAssert(len(b) == n || len(b) == (x.BitLen()+7)/8, "no longer than needed")
	vAssert(new(big.Int).SetBytes(b).Cmp(x) == 0, "padded bytes keep the value")
	buf := vBytes(n)
	ReadBits(x, buf)
	if n >= (x.BitLen()+7)/8 {
		// bytes above the words of the number are left alone by design
		w := (x.BitLen() + 63) / 64 * 8
		if w < n {
			buf = buf[n-w:]
		}
		vAssert(new(big.Int).SetBytes(buf).Cmp(x) == 0, "ReadBits writes the value")
	} else {
		want := x.Bytes()
		vAssert(bytes.Equal(buf, want[len(want)-n:]), "ReadBits writes the low bytes")
	}
	vAssert(x.Cmp(old) == 0, "the number is kept")
	vReach("padded")
}

func VH_Byte() {
	x := new(big.Int).SetBytes(vBytes([]int{0, 1, 8, 9, 32, 33}[vChoose(6)]))
	pad := []int{1, 8, 32, 40}[vChoose(4)]
	n := vChoose(pad + 2)
	var want byte
	if n < pad {
		q := new(big.Int).Rsh(x, uint(8*(pad-1-n)))
		want = byte(q.Uint64())
	}
	vAssert(Byte(x, pad, n) == want, "Byte")
	vReach("byte")
}

func VH_FirstBit() {
	x := new(big.Int).SetBytes(vBytes([]int{0, 1, 2, 9}[vChoose(4)]))
	if vChoose(2) == 1 {
		x.Lsh(x, 60)
	}
	r := FirstBitSet(x)
	if x.Sign() == 0 {
		vAssert(r == 0, "FirstBitSet of zero")
	} else {
		vAssert(x.Bit(r) == 1, "FirstBitSet is a set bit")
		vAssert(new(big.Int).Lsh(new(big.Int).Rsh(x, uint(r)), uint(r)).Cmp(x) == 0, "FirstBitSet is the lowest")
	}
	vReach("first")
}

func VH_MaxMin() {
	x, y := vxBig(9), vxBig(9)
	ox, oy := new(big.Int).Set(x), new(big.Int).Set(y)
	a, b := BigMax(x, y), BigMin(x, y)
	vAssert(a == x || a == y, "the larger is one of both")
	vAssert(b == x || b == y, "the smaller is one of both")
	vAssert(a.Cmp(x) >= 0 && a.Cmp(y) >= 0, "the larger")
	vAssert(b.Cmp(x) <= 0 && b.Cmp(y) <= 0, "the smaller")
	vAssert(x.Cmp(ox) == 0 && y.Cmp(oy) == 0, "operands kept")
	vReach("maxmin")
}
