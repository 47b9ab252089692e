//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common/db"
)

func VH_Append() {
	n := vxHistLen(vBound("appended heights", 49, 300))
	d := db.NewMemDB()
	h := vxHist(d, nil)
	hash := vChoose(3)
	var vals [][]byte
	if hash == 0 {
		for k := 0; k < n; k++ {
			vals = append(vals, vxRaw())
		}
	} else {
		vals = vxSome(n, 0, n/2, n-1)
	}
	for i, v := range vals {
		arg := append([]byte{}, v...)
		vAssert(h.Append(uint64(i), arg) == nil, "append of the expected height")
		arg[0] ^= 1 // the tree keeps its own copy
		if hash == 1 && i%5 == 3 {
			vxHistRoot(h)
		} else if hash == 2 && i%5 == 3 {
			vAssert(h.Commit() == nil, "commit succeeds")
		}
	}
	vxHistIs(h, vals, "appended")
	g, _ := h.Get(0)
	g[0] ^= 1
	vxHistIs(h, vals, "a returned value is a copy")
	vReach("append")
}

// Any other height is refused and nothing changes; nothing is found at
// heights not appended.
func VH_Refused() {
	n := vxHistLen(vBound("appended heights before a refused one", 17, 257))
	if vChoose(4) == 0 {
		n = 0
	}
	vals := vxSome(n, 0, n-1)
	h := vxHistory(db.NewMemDB(), vals)
	root := vxHistRoot(h)
	key := vU64()
	vAssume(key != uint64(n))
	vAssert(h.Append(key, vxLeaf()) != nil, "another height than the expected one is refused")
	vAssert(h.Append(uint64(n), nil) != nil, "an empty value is refused")
	vAssert(bytes.Equal(root, vxHistRoot(h)), "a refused append changes nothing")
	vxHistIs(h, vals, "after a refused append")
	vReach("refused")
}

func VH_Absent() {
	l := []int{0, 1, 16, 17, 256, 257}
	n := l[vChoose(vBound("history lengths before a lookup", 4, 6))]
	h := vxHistory(db.NewMemDB(), vxFixed(n))
	if vChoose(2) == 1 {
		vAssert(h.Commit() == nil, "commit succeeds")
	}
	// any change of one hexadecimal digit of the last or of the next height
	at := uint64(n)
	if n > 0 && vChoose(2) == 1 {
		at--
	}
	key := vxKeyNear(at)
	vAssume(key >= uint64(n))
	g, ok := h.Get(key)
	vAssert(!ok && g == nil, "nothing at heights not appended")
	_, _, ok = h.GetProof(key)
	vAssert(!ok, "no proof for heights not appended")
	vReach("absent")
}

// Values of other lengths than 32 bytes are kept as they are.
func VH_OtherLengths() {
	h := vxHist(db.NewMemDB(), nil)
	a, b := vBytes(vChoose(3)+1), vBytes(40)
	vAssert(h.Append(0, a) == nil && h.Append(1, b) == nil, "append")
	if vChoose(2) == 1 {
		vAssert(h.Commit() == nil, "commit succeeds")
	}
	x, ok := h.Get(0)
	y, ok2 := h.Get(1)
	vAssert(ok && ok2 && bytes.Equal(x, a) && bytes.Equal(y, b), "values unchanged")
	vReach("lengths")
}
