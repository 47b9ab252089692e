//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common/db"
)

func VH_Chop() {
	n := vxHistLen(vBound("appended heights", 33, 273))
	var k int
	if n <= 20 {
		k = vChoose(n)
	} else {
		k = []int{0, 1, 7, 14, 15, 16, 17, 30, n / 2, n - 3, n - 2, n - 1}[vChoose(12)]
	}
	vals := vxSome(n, k, k+1, n-1)
	d := db.NewMemDB()
	h := vxHistory(d, vals)
	root := []byte(nil)
	switch vChoose(3) {
	case 1:
		root = vxHistRoot(h)
	case 2:
		vAssert(h.Commit() == nil, "commit succeeds")
		h = vxHist(d, vxHistRoot(h))
	}
	// the chopped tree reloads collapsed children from the database
	vAssert(h.Commit() == nil, "commit succeeds")
	c, err := h.Chop(uint64(k))
	vAssert(err == nil && c != nil, "chop")
	want := vals[:k+1]
	ref := vxHistory(db.NewMemDB(), want)
	if vChoose(2) == 1 {
		vxHistIs(c, want, "chopped")
	}
	vAssert(bytes.Equal(vxHistRoot(c), vxHistRoot(ref)), "root of the chopped tree")
	vxHistIs(c, want, "chopped")
	vxHistProof(c, uint64(k), vals[k], vxHistRoot(ref), "chopped")
	// the original is as before, also after the chopped one goes on
	nv := vxLeaf()
	vAssert(c.Append(uint64(k)+1, nv) == nil && ref.Append(uint64(k)+1, nv) == nil, "chopped tree goes on")
	vAssert(bytes.Equal(vxHistRoot(c), vxHistRoot(ref)), "root of the chopped tree after going on")
	vxHistIs(h, vals, "original")
	full := vxHistRoot(vxHistory(db.NewMemDB(), vals))
	vAssert(bytes.Equal(vxHistRoot(h), full), "root of the original")
	vAssert(root == nil || bytes.Equal(root, full), "root of the original before")
	vReach("chop")
}

func VH_ChopUnknown() {
	n := []int{0, 1, 16, 17}[vChoose(4)]
	h := vxHistory(db.NewMemDB(), vxFixed(n))
	key := vU64()
	vAssume(key >= uint64(n))
	c, err := h.Chop(key)
	vAssert(err != nil && c == nil, "chopping at a height not appended is refused")
	vReach("unknown")
}
