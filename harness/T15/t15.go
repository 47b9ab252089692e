//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common/db"
)

func VH_Reload() {
	n := vxHistLen(vBound("appended heights", 49, 300))
	vals := vxSome(n, 0, n/2, n-1)
	d := db.NewMemDB()
	h := vxHistory(d, vals)
	if vChoose(2) == 1 {
		vxHistRoot(h)
	}
	vAssert(h.Commit() == nil, "commit succeeds")
	root := vxHistRoot(h)
	var r *HistoryTree
	switch vChoose(5) {
	case 0:
		r = vxHist(d, root)
	case 1:
		var err error
		r, err = NewHistoryTree(d, []byte("h"), root, false)
		vAssert(err == nil, "opened without checking for gaps")
	case 2:
		r = h.Clone()
	case 3:
		var err error
		r, err = h.Rebase(d)
		vAssert(err == nil, "rebased")
	case 4:
		r = h
		for k := 0; k < n; k++ {
			_ = r.CollapseBefore(uint64(k))
		}
	}
	vAssert(bytes.Equal(vxHistRoot(r), root), "same root")
	vxHistIs(r, vals, "reloaded")
	i := vxPick(n)
	p := vxHistProof(h, uint64(i), vals[i], root, "original")
	q := vxHistProof(r, uint64(i), vals[i], root, "reloaded")
	vAssert(p.Equal(q), "same proof")
	// both go on
	more := vxSome(2, 0)
	vAssert(r.Append(uint64(n)+1, more[0]) != nil, "same next height")
	vxAppendAll(r, more)
	all := append(append([][]byte{}, vals...), more...)
	vxHistIs(r, all, "reloaded and continued")
	vAssert(bytes.Equal(vxHistRoot(r), vxHistRoot(vxHistory(db.NewMemDB(), all))), "root after continuing")
	vAssert(r.Commit() == nil, "commit after continuing")
	vxHistIs(vxHist(d, vxHistRoot(r)), all, "reloaded again")
	vReach("reload")
}

// Collapsing while values are not committed yet loses nothing.
func VH_CollapseDirty() {
	lens := []int{2, 17, 49, 258, 273, 300, 513}
	n := lens[vChoose(vBound("history lengths before collapsing", 4, 7))]
	at := vChoose(2) // committed halfway or not at all
	vals := vxSome(n, 0, n-1)
	d := db.NewMemDB()
	h := vxHist(d, nil)
	for i, v := range vals {
		vAssert(h.Append(uint64(i), v) == nil, "append of the expected height")
		if at == 1 && i == n/2 {
			vAssert(h.Commit() == nil, "commit succeeds")
		}
	}
	if vChoose(2) == 1 {
		vxHistRoot(h)
	}
	want := vxHistRoot(vxHistory(db.NewMemDB(), vals))
	for k := 0; k <= n; k += vBound("step of the collapsed heights", 16, 1) {
		_ = h.CollapseBefore(uint64(k))
	}
	vxHistIs(h, vals, "collapsed before the commit")
	vAssert(bytes.Equal(vxHistRoot(h), want), "same root")
	vAssert(h.Commit() == nil, "commit succeeds")
	vxHistIs(h, vals, "collapsed, then committed")
	vxHistIs(vxHist(d, want), vals, "collapsed, committed and reloaded")
	vReach("collapse")
}

// Reopening with a root that was never committed does not give a tree that
// claims to hold something.
func VH_Unknown() {
	d := db.NewMemDB()
	root := vxLeaf()
	h, err := NewHistoryTree(d, []byte("h"), root, vChoose(2) == 1)
	vAssert(err != nil && h == nil, "an unknown root is refused")
	vReach("unknown")
}
