//verif:pkg trie

package trie

import (
	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

// Any history, with hashing and committing in between, gives the root of a
// trie built from the content alone in another order.
func VH_Order() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	n := vBound("operations", 3, 4)
	mode := vChoose(3)
	for i := 0; i < n; i++ {
		vxStep(t, &m, vBound("key bytes", 2, 2), i > 0)
		if i < n-1 {
			switch mode {
			case 1:
				vxRoot(t)
			case 2:
				vAssert(t.Commit() == nil, "commit succeeds")
			}
		}
	}
	got := vxRoot(t)
	want := vxRoot(vxBuild(&m, n-1, true))
	vAssert(vxSame(got, want), "root depends on the content only")
	if m.count() == 0 {
		vAssert(vxSame(got, common.EmptyNodeHashSlice), "root of an emptied trie")
		vAssert(vxSame(got, vxRoot(vxTrie(nil, db.NewMemDB()))), "root of an emptied trie is that of a new one")
		vReach("emptied")
	}
	vReach("order")
}

// The same when the trie is reopened from its root in between.
func VH_Reopened() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations with reopening", 3, 4)
	at := vChoose(n-1) + 1
	for i := 0; i < n; i++ {
		if i == at {
			vAssert(t.Commit() == nil, "commit succeeds")
			t = vxTrie(vxRoot(t), d)
		}
		vxStep(t, &m, vBound("key bytes with reopening", 1, 2), i > 0)
	}
	vAssert(vxSame(vxRoot(t), vxRoot(vxBuild(&m, 0, false))), "root of a reopened and changed trie depends on the content only")
	vReach("reopened")
}
