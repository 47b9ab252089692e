//verif:pkg trie

package trie

import (
	"errors"

	"github.com/ThinkiumGroup/go-common/db"
)

// vxFailAdapter fails the saves whose number is in the set.
type vxFailAdapter struct {
	db.DataAdapter
	ctl *vxFailCtl
}

type vxFailCtl struct {
	n    int
	at   int
	hit  bool
	more bool // every later write fails as well
}

func (a *vxFailAdapter) Save(h, v []byte) error {
	a.ctl.n++
	if a.ctl.at >= 0 && (a.ctl.n-1 == a.ctl.at || (a.ctl.more && a.ctl.n-1 > a.ctl.at)) {
		a.ctl.hit = true
		return errors.New("vx: write failed")
	}
	return a.DataAdapter.Save(h, v)
}

func VH_FailingCommit() {
	d := db.NewMemDB()
	na, va := vxAdapters(d)
	ctl := &vxFailCtl{at: -1}
	t := NewTrieWithValueFuncs(nil, &vxFailAdapter{na, ctl}, &vxFailAdapter{va, ctl}, vxEncode, vxDecode, vxHasher)
	var m vxModel
	n := vBound("operations", 2, 3)
	for i := 0; i < n; i++ {
		vxStep(t, &m, vBound("key bytes", 1, 2), false)
	}
	if vChoose(2) == 1 {
		vAssert(t.Commit() == nil, "commit succeeds")
		vxStep(t, &m, 1, true)
	}
	ctl.n, ctl.at, ctl.more = 0, vChoose(vBound("failing write", 6, 10)), vChoose(2) == 1
	err := t.Commit()
	vAssume(ctl.hit)
	vAssert(err != nil, "a failed write makes the commit fail")
	vxAgreeAll(t, &m, "after the failed commit")
	ctl.at = -1
	vAssert(t.Commit() == nil, "the retry succeeds")
	r := vxTrie(vxRoot(t), d)
	vxAgreeAll(r, &m, "reopened after the retry")
	vAssert(vxSame(vxRoot(r), vxRoot(vxBuild(&m, 0, false))), "root after the retry")
	vReach("failing")
}
