//verif:pkg math

package math

import "math/bits"

func VH_SafeAdd() {
	x, y := vU64(), vU64()
	r, o := SafeAdd(x, y)
	s, c := bits.Add64(x, y, 0)
	vAssert(r == s, "SafeAdd result")
	vAssert(o == (c != 0), "SafeAdd overflow")
	vReach("add")
}

func VH_SafeSub() {
	x, y := vU64(), vU64()
	r, o := SafeSub(x, y)
	s, c := bits.Sub64(x, y, 0)
	vAssert(r == s, "SafeSub result")
	vAssert(o == (c != 0), "SafeSub overflow")
	vReach("sub")
}

func VH_SafeMul() {
	x, y := vU64(), vU64()
	r, o := SafeMul(x, y)
	hi, lo := bits.Mul64(x, y)
	vAssert(r == lo, "SafeMul result")
	vAssert(o == (hi != 0), "SafeMul overflow")
	vReach("mul")
}
