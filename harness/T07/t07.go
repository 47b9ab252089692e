//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common/db"
)

func vxIterate(it ValueIterator, m *vxModel, desc bool, what string) {
	var prev []byte
	n := 0
	for it.Next() {
		k, v := it.Current()
		vAssert(n < m.count(), what+": no more entries than keys")
		if n > 0 {
			c := bytes.Compare(prev, k)
			if desc {
				c = -c
			}
			vAssert(c < 0, what+": strictly ordered")
		}
		e := m.get(k)
		vAssert(e != nil, what+": only live keys")
		vAssert(v == interface{}(e.v), what+": with their values")
		prev = k
		n++
	}
	vAssert(n == m.count(), what+": every live key")
	vAssert(!it.Next(), what+": stays finished")
}

func VH_Iterate() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations", 2, 3)
	for i := 0; i < n; i++ {
		vxStep(t, &m, vBound("key bytes", 2, 2), i > 0)
	}
	if vChoose(2) == 1 {
		vAssert(t.Commit() == nil, "commit succeeds")
		t = vxTrie(vxRoot(t), d)
	}
	switch vChoose(3) {
	case 0:
		vxIterate(t.ValueIterator(), &m, false, "iterator")
	case 1:
		vxIterate(t.ReversedValueIterator(), &m, true, "reversed iterator")
	case 2:
		c := 0
		var prev []byte
		t.IterateAll(false, func(k []byte, v interface{}) bool {
			e := m.get(k)
			vAssert(e != nil && v == interface{}(e.v), "IterateAll: entries of the trie")
			vAssert(c == 0 || bytes.Compare(prev, k) < 0, "IterateAll: ordered")
			prev = k
			c++
			return true
		})
		vAssert(c == m.count(), "IterateAll: every key")
	}
	vxAgreeAll(t, &m, "after iterating")
	vReach("iterate")
}

// Three keys, never deleted: nodes with values and children at every level.
func VH_Three() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	for i := 0; i < 3; i++ {
		vxStep(t, &m, vBound("key bytes for three keys", 1, 2), false)
	}
	if vChoose(2) == 0 {
		vxIterate(t.ValueIterator(), &m, false, "iterator")
	} else {
		vxIterate(t.ReversedValueIterator(), &m, true, "reversed iterator")
	}
	vReach("three")
}
