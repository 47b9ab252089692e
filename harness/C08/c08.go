//verif:pkg .

package common

import "bytes"

func VH_Pad() {
	b := vBytes(vChoose(vBound("bytes", 8, 14) + 1))
	orig := append([]byte{}, b...)
	l := vChoose(9) - 1
	r, f := RightPadBytes(b, l), LeftPadBytes(b, l)
	n := len(b)
	if l > n {
		n = l
	}
	vAssert(len(r) == n && len(f) == n, "padded length")
	vAssert(bytes.Equal(r[:len(b)], orig) && bytes.Equal(f[n-len(b):], orig), "padding keeps the content")
	for i := len(b); i < n; i++ {
		vAssert(r[i] == 0 && f[n-1-i] == 0, "padding is zero")
	}
	vAssert(bytes.Equal(b, orig), "input kept")
	vReach("pad")
}

func VH_SplitJoin() {
	b := vBytes(vChoose(vBound("bytes", 10, 16) + 1))
	orig := append([]byte{}, b...)
	size := 1 + vChoose(4)
	bss, err := SplitBytes(b, size)
	vAssert((err == nil) == (len(b)%size == 0), "split only multiples of the size")
	if err != nil {
		return
	}
	vAssert(len(bss) == len(b)/size, "number of pieces")
	for i := range bss {
		vAssert(bytes.Equal(bss[i], orig[i*size:(i+1)*size]), "piece")
	}
	vAssert(bytes.Equal(ConcatenateBytes(bss), orig), "joined again")
	c := CopyBytesSlice(bss)
	vAssert(BytesSliceEqual(c, bss), "equal copy")
	for i := range bss {
		bss[i][0] ^= 1
		vAssert(c[i][0] == orig[i*size], "the copy is independent")
		vAssert(!BytesSliceEqual(c, bss), "changed")
	}
	vAssert(bytes.Equal(b, orig), "input kept")
	vReach("split")
}

func VH_Join() {
	n := vChoose(4)
	bss := make([][]byte, n)
	var want []byte
	for i := range bss {
		if k := vChoose(4); k < 3 {
			bss[i] = vBytes(k)
		}
		want = append(want, bss[i]...)
	}
	j := ConcatenateBytes(bss)
	vAssert(j != nil && bytes.Equal(j, want), "joined")
	if len(j) > 0 {
		j[0] ^= 1
		c := ConcatenateBytes(bss)
		vAssert(bytes.Equal(c, want), "no memory shared with the pieces")
	}
	vReach("join")
}

func VH_Copy() {
	vAssert(CopyBytes(nil) == nil && CopyBytesSlice(nil) == nil, "nil stays nil")
	b := vBytes(vChoose(6))
	c := CopyBytes(b)
	vAssert(c != nil && bytes.Equal(b, c), "copy")
	for i := range c {
		c[i]++
		vAssert(b[i] == c[i]-1, "independent")
	}
	vReach("copy")
}

func vxIn(l [][]byte, b []byte) bool {
	for i := range l {
		if bytes.Equal(l[i], b) {
			return true
		}
	}
	return false
}

func VH_Intersection() {
	mk := func(n int) [][]byte {
		r := make([][]byte, n)
		for i := range r {
			r[i] = vBytes(vChoose(2) + 1)
		}
		return r
	}
	k := vBound("list", 2, 3)
	a, b := mk(vChoose(k+1)), mk(vChoose(k+1))
	m := make(map[string]struct{})
	for i := range a {
		m[string(a[i])] = struct{}{}
	}
	r := BytesIntersection(a, b)
	rm := BytesIntersectionMap(m, b)
	for i := range r {
		vAssert(vxIn(a, r[i]) && vxIn(b, r[i]) && !vxIn(r[:i], r[i]), "only common elements, once")
	}
	for i := range rm {
		vAssert(vxIn(a, rm[i]) && vxIn(b, rm[i]) && !vxIn(rm[:i], rm[i]), "only common elements, once (map)")
	}
	for i := range a {
		vAssert(vxIn(r, a[i]) == vxIn(b, a[i]) && vxIn(rm, a[i]) == vxIn(b, a[i]), "every common element")
	}
	vReach("intersection")
}

func vxBit(b []byte, i int) byte { // bit i from the right
	p := len(b) - 1 - i/8
	if p < 0 {
		return 0
	}
	return b[p] >> (i % 8) & 1
}

func VH_ShiftBits() {
	b0, b1 := vU8(), vU8()
	s := uint8(vConc(int(vU8() & 15)))
	n := uint8(vChoose(10))
	r := ShiftBits(b0, b1, s, n)
	w := uint16(b1)<<8 | uint16(b0)
	k := n
	if k == 0 || k > 8 {
		k = 8
	}
	vAssert(uint16(r) == w>>(s&7)&(1<<k-1), "the wanted bits")
	vAssert(n != 0 || ShiftBits(b0, b1, s) == r, "default length")
	vReach("shift")
}

func VH_SubBytes() {
	b := vBytes(vChoose(vBound("bytes", 4, 6) + 1))
	orig := append([]byte{}, b...)
	from, size := vChoose(8*len(b)+3)-1, vChoose(vBound("bits", 28, 52))-1
	r, err := SubBytes(b, from, size)
	vAssert((err != nil) == (from < 0 || size <= 0), "invalid parameters")
	if err != nil {
		return
	}
	if from >= 8*len(b) {
		vAssert(r == nil, "nothing there")
		return
	}
	n := size
	if n > 8*len(b)-from {
		n = 8*len(b) - from
	}
	vAssert(len(r) == (n+7)/8, "length")
	for i := 0; i < 8*len(r); i++ {
		w := byte(0)
		if i < n {
			w = vxBit(orig, from+i)
		}
		vAssert(vxBit(r, i) == w, "the wanted bits")
	}
	vAssert(bytes.Equal(b, orig), "input kept")
	vReach("sub")
}

func vxNibble(c byte) (byte, bool) {
	d, l, u := vAnd(c >= '0', c <= '9'), vAnd(c >= 'a', c <= 'f'), vAnd(c >= 'A', c <= 'F')
	return vIte8(d, c-'0', vIte8(l, c-'a'+10, c-'A'+10)), vOr(d, vOr(l, u))
}

func VH_Hex() {
	n := vChoose(vBound("digits", 7, 9))
	s := vStr(n)
	ok := n%2 == 0
	var want []byte
	for i := 0; i < n; i++ {
		v, is := vxNibble(s[i])
		vAssert(IsHexCharacter(s[i]) == is, "hexadecimal digits")
		ok = vAnd(ok, is)
		if i%2 == 0 {
			want = append(want, v<<4)
		} else {
			want[i/2] |= v
		}
	}
	vAssert(IsHex(s) == ok, "IsHex")
	pre := n >= 2 && vAnd(s[0] == '0', vOr(s[1] == 'x', s[1] == 'X'))
	vAssert(HasHexPrefix(s) == pre, "prefix")
	if !pre && !ok {
		_, err := DecodeHex(s)
		vAssert(err != nil, "not hexadecimal")
		vReach("bad")
		return
	}
	if !pre {
		d, err := DecodeHex(s)
		e, err2 := DecodeHex("0x" + s)
		vAssert(err == nil && err2 == nil && bytes.Equal(d, want) && bytes.Equal(e, want), "decoded")
		vAssert(bytes.Equal(Hex2Bytes(s), want) && bytes.Equal(FromHex(s), want) && bytes.Equal(FromHex("0X"+s), want), "bytes of the text")
		fl := vChoose(4)
		f := Hex2BytesFixed(s, fl)
		vAssert(len(f) == fl, "fixed length")
		for i := 0; i < fl; i++ {
			w := byte(0)
			if k := len(want) - fl + i; k >= 0 {
				w = want[k]
			}
			vAssert(f[i] == w, "fixed bytes")
		}
		vReach("ok")
	}
}

func VH_HexRound() {
	b := vBytes(vChoose(vBound("bytes", 8, 10)))
	s := Bytes2Hex(b)
	vAssert(len(s) == 2*len(b) && IsHex(s) && bytes.Equal(Hex2Bytes(s), b) && bytes.Equal(FromHex("0x"+s), b), "round trip")
	if len(b) > 0 {
		o := FromHex("0x" + s[1:])
		vAssert(len(o) == len(b) && o[0] == b[0]&15 && bytes.Equal(o[1:], b[1:]), "odd digits are padded")
	}
	vReach("round")
}

// The part of a slice that is printed lies within it.
func VH_ForPrint() {
	b := vBytes(vChoose(5))
	st, en := vChoose(8)-1, vChoose(8)-1
	vAssume(st >= 0)
	r := ForPrintSlice(b, st, en)
	q := ForPrint(b, st, en)
	want := []byte{}
	if len(b) > 0 {
		if st >= len(b) {
			st = len(b) - 1
		}
		if en < 0 || en > len(b) {
			en = len(b)
		}
		if en <= st {
			en = st + 1
		}
		want = b[st:en]
	}
	vAssert(bytes.Equal(r, want) && bytes.Equal(q, want), "the printed part")
	vAssert(len(ForPrintSlice(nil, st, en)) == 0 && len(ForPrint(nil, st)) == 0 && len(ForPrint(7)) == 0, "nothing to print")
	vReach("print")
}

// Copies, reversals and comparisons of slices.
func VH_Slices() {
	b := vBytes(vChoose(vBound("bytes", 8, 14) + 1))
	if vChoose(5) == 0 {
		b = nil
	}
	o := append([]byte{}, b...)
	c := CloneByteSlice(b)
	vAssert((c == nil) == (b == nil) && bytes.Equal(c, b), "a clone has the same bytes")
	for i := range c {
		c[i] ^= 1
	}
	vAssert(bytes.Equal(b, o), "a clone is a copy")
	r := ReverseBytes(CloneByteSlice(b))
	vAssert(len(r) == len(o), "reversed length")
	for i := range r {
		vAssert(r[i] == o[len(o)-1-i], "reversed")
	}
	e := vBytes(vChoose(3))
	cmp := func(x, y interface{}) int { return int(x.(byte)) - int(y.(byte)) }
	var null []byte
	x, y := CompareSlices(b, e, cmp), CompareSlices(e, b, cmp)
	vAssert((x < 0) == (y > 0) && (x > 0) == (y < 0), "antisymmetric")
	if b != nil {
		vAssert((x == 0) == bytes.Equal(b, e), "equal exactly for equal content")
		vAssert((x < 0) == (len(b) < len(e) || len(b) == len(e) && bytes.Compare(b, e) < 0), "shorter first, then by content")
		vAssert(CompareSlices(null, b, cmp) < 0, "nil first")
	} else {
		vAssert(x < 0 && CompareSlices(null, b, cmp) == 0, "nil first")
	}
	vReach("slices")
}

func VH_Pointers() {
	mk := func() *byte {
		if vChoose(2) == 0 {
			return nil
		}
		x := vU8()
		return &x
	}
	l := []*byte{mk(), mk(), mk()}
	i, j := vConc(vChoose(5))-1, vConc(vChoose(5))-1
	less, more := PointerSliceLess(l, i, j)
	in := i >= 0 && j >= 0 && i < 3 && j < 3
	switch {
	case !in || i == j:
		vAssert(!less && !more, "not in the list")
	case l[i] == nil || l[j] == nil:
		vAssert(!more && less == (l[i] == nil && l[j] != nil), "nil is the smallest")
	default:
		vAssert(more && !less, "both there: compare them")
	}
	less, more = PointerSliceLess([]int{1, 2}, 0, 1)
	vAssert(!less && !more, "no pointers")
	less, more = PointerSliceLess(nil, 0, 1)
	vAssert(!less && !more, "no slice")
	if in {
		c, more := PointerCompare(l[i], l[j])
		switch {
		case l[i] == nil && l[j] == nil:
			vAssert(c == 0 && !more, "both nil")
		case l[i] == nil:
			vAssert(c < 0 && !more, "nil is the smallest")
		case l[j] == nil:
			vAssert(c > 0 && !more, "nil is the smallest")
		default:
			vAssert(more, "both there: compare them")
		}
	}
	vReach("pointers")
}

func VH_Paths() {
	s := vStr(vChoose(vBound("characters", 4, 6)))
	p := FormalizeBasePath(s)
	switch {
	case s == "":
		vAssert(p == "./", "no path is the current one")
	case s[len(s)-1] == '/':
		vAssert(p == s, "kept")
	default:
		vAssert(p == s+"/", "a slash behind it")
	}
	vAssert(FormalizeBasePath(p) == p, "stays")
	b := vBytes(vChoose(3))
	if vChoose(3) == 0 {
		b = nil
	}
	c := BytesForRLP(b)
	vAssert(c != nil && bytes.Equal(c, b), "never nil")
	if len(c) > 0 {
		c[0] ^= 1
		vAssert(c[0] != b[0], "a copy")
	}
	vReach("paths")
}
