//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

func VH_Copies() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations before copying", 2, 3)
	max := vBound("key bytes", 1, 2)
	for i := 0; i < n; i++ {
		vxStep(t, &m, max, i > 0)
	}
	m2 := m.clone()
	var c *Trie
	switch vChoose(4) {
	case 0:
		c = t.Clone()
	case 1:
		vAssert(t.Commit() == nil, "commit succeeds")
		c = t.Inherit(vxRoot(t))
	case 2:
		var err error
		c, err = t.Rebase(d)
		vAssert(err == nil, "rebase succeeds")
	default:
		r := &RevertableTrie{Origin: t}
		c = r.Copy().Origin
	}
	vAssert(vxSame(vxRoot(c), vxRoot(t)), "a copy starts with the root of the original")
	vxAgreeAll(c, m2, "fresh copy")
	ht := vxRoot(t)
	if vChoose(2) == 1 {
		ht = vxRoot(c)
		vxStep(t, &m, max, true)
		if vChoose(2) == 1 {
			vAssert(t.Commit() == nil, "commit succeeds")
		}
		vAssert(vxSame(vxRoot(c), ht), "the copy keeps its root")
	} else {
		vxStep(c, m2, max, true)
		if vChoose(2) == 1 {
			vAssert(c.Commit() == nil, "commit succeeds")
		}
		vAssert(vxSame(vxRoot(t), ht), "the original keeps its root")
	}
	vxAgreeAll(c, m2, "copy")
	vxAgreeAll(t, &m, "original")
	vAssert(vxSame(vxRoot(c), vxRoot(vxBuild(m2, 0, false))), "root of the copy")
	vAssert(vxSame(vxRoot(t), vxRoot(vxBuild(&m, 0, false))), "root of the original")
	vReach("copies")
}

// A root handed out is not changed by later operations, nor does changing
// the caller's key or root slice afterwards matter.
func VH_Slices() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	k := vxKeyN(2)
	k2 := append([]byte{}, k...)
	v := vU32()
	t.Put(k, v)
	m.put(k2, v)
	for i := range k {
		k[i] ^= 0x11
	}
	vxAgree(t, &m, k2, "key slice reused")
	vxAgree(t, &m, k, "other key")
	vAssert(t.Commit() == nil, "commit succeeds")
	root := vxRoot(t)
	keep := append([]byte{}, root...)
	c := t.Inherit(root)
	for i := range root {
		root[i] = 0
	}
	vAssert(vxSame(vxRoot(c), keep), "root slice reused")
	vxAgree(c, &m, k2, "inherited")
	vReach("slices")
}
