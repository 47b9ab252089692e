//verif:pkg .

package common

func VH_Components() {
	a, b, c := uint64(vU32())%1000, uint64(vU32())%1000, uint64(vU32())%1000
	v, err := NewNodeVersion(a, b, c)
	vAssert(err == nil, "components up to 999")
	{
		vAssert(v.Patch() == c, "patch is recovered")
		vAssert(v.Minor() == b, "minor is recovered")
		vAssert(v.Major() == a, "major is recovered")
		vReach("ok")
	}
}

func VH_Refused() {
	a, b, c := vU64(), vU64(), vU64()
	_, err := NewNodeVersion(a, b, c)
	vAssert((err == nil) == (a <= 999 && b <= 999 && c <= 999), "accepted exactly up to 999")
	if err != nil {
		vReach("refused")
	}
}

func VH_Order() {
	a, b, c := uint64(vU16())&1023, uint64(vU16())&1023, uint64(vU16())&1023
	d, e, f := uint64(vU16())&1023, uint64(vU16())&1023, uint64(vU16())&1023
	v, err := NewNodeVersion(a, b, c)
	w, err2 := NewNodeVersion(d, e, f)
	if err != nil || err2 != nil {
		return
	}
	less := vOr(a < d, vOr(vAnd(a == d, b < e), vAnd(a == d, vAnd(b == e, c < f))))
	vAssert((v < w) == less, "lexicographic order")
	vAssert((v == w) == vAnd(a == d, vAnd(b == e, c == f)), "equal exactly when the components are")
	vReach("order")
}

func VH_Text() {
	k := vConc(int(vU8() & 15))
	a, b, c := uint64(k*67%1000), uint64(k), uint64(999-k)
	v, err := NewNodeVersion(a, b, c)
	vAssert(err == nil, "in range")
	dec := func(x uint64) string {
		s := string([]byte{'0' + byte(x%10)})
		for x /= 10; x > 0; x /= 10 {
			s = string([]byte{'0' + byte(x%10)}) + s
		}
		return s
	}
	vAssert(v.String() == dec(a)+"."+dec(b)+"."+dec(c), "major.minor.patch")
	vReach("text")
}
