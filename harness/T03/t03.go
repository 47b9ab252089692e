//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

// Each operation changes the reported root exactly if it changes the content.
func VH_EachChange() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	commit := vChoose(2) == 1
	n := vBound("operations", 3, 4)
	prev := vxRoot(t)
	for i := 0; i < n; i++ {
		before := m.clone()
		vxStep(t, &m, vBound("key bytes", 2, 2), i > 0)
		if commit {
			vAssert(t.Commit() == nil, "commit succeeds")
		}
		h := vxRoot(t)
		vAssert(len(h) == 32, "a root hash has 32 bytes")
		vAssert(vxSame(prev, h) == vxSameContent(before, &m), "the root changes exactly with the content")
		prev = h
	}
	vReach("each")
}

// Two tries with different content have different roots.
func VH_Pairs() {
	n := vBound("keys in each trie", 2, 2)
	mk := func() (*Trie, *vxModel) {
		t := vxTrie(nil, db.NewMemDB())
		m := &vxModel{}
		c := vChoose(n + 1)
		for i := 0; i < c; i++ {
			k, v := vxKeyN(vBound("key bytes in pairs", 2, 2)), vU32()
			t.Put(k, v)
			m.put(k, v)
		}
		return t, m
	}
	a, ma := mk()
	b, mb := mk()
	vAssert(vxSame(vxRoot(a), vxRoot(b)) == vxSameContent(ma, mb), "equal roots exactly for equal content")
	vReach("pairs")
}
