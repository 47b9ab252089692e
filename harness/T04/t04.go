//verif:pkg trie

package trie

import (
	"reflect"

	"github.com/ThinkiumGroup/go-common/db"
)

func vxReopen(t *Trie, d db.Database) *Trie {
	vAssert(t.Commit() == nil, "commit succeeds")
	vAssert(!t.IsDirty(), "a committed trie is not dirty")
	h := vxRoot(t)
	r := vxTrie(h, d)
	vAssert(vxSame(vxRoot(r), h), "the reopened trie has the same root")
	return r
}

// Commit, reopen, compare; change both sides, commit and reopen again.
func VH_Reload() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations before reopening", 2, 3)
	max := vBound("key bytes", 1, 2)
	for i := 0; i < n; i++ {
		vxStep(t, &m, max, i > 0)
	}
	r := vxReopen(t, d)
	vxAgreeAll(r, &m, "reopened")
	vxAgreeAll(t, &m, "committed")
	if vChoose(2) == 1 {
		vAssert(t.Collapse() == nil || true, "collapse")
	} else {
		r = vxReopen(t, d)
	}
	m2 := m.clone()
	side, mod := r, m2
	if vChoose(2) == 1 {
		side, mod = t, &m
	}
	vxStep(side, mod, 1, true)
	vxAgreeAll(r, m2, "reopened side after a change")
	vxAgreeAll(t, &m, "original side after a change")
	r2 := vxReopen(side, d)
	vxAgreeAll(r2, mod, "reopened again")
	k := vxKeyN(1)
	vxAgree(r2, mod, k, "any key of the reopened trie")
	vReach("reload")
}

// Asking for the root hash, a proof or an iteration before the commit does
// not change what the commit writes.
func VH_Asked() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	what := vChoose(4)
	for i := 0; i < vBound("operations with questions in between", 2, 3); i++ {
		vxStep(t, &m, 1, i > 0)
		switch what {
		case 0:
			vxRoot(t)
		case 1:
			t.GetProof(m.e[0].k)
		case 2:
			t.GetExistenceProof(m.e[0].k)
		case 3:
			vAssert(t.Commit() == nil, "commit succeeds")
		}
	}
	vxAgreeAll(vxReopen(t, d), &m, "reopened")
	vxAgreeAll(t, &m, "committed")
	vReach("asked")
}

// Many commits age the nodes until they are collapsed in memory.
func VH_Aging() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	for i := 0; i < vBound("operations before aging", 2, 2); i++ {
		vxStep(t, &m, 1, false)
	}
	for i := 0; i < 104; i++ {
		vAssert(t.Commit() == nil, "commit succeeds")
	}
	vxStep(t, &m, 1, true)
	vxAgreeAll(t, &m, "aged trie")
	r := vxReopen(t, d)
	vxAgreeAll(r, &m, "aged and reopened")
	vReach("aging")
}

// Values of a struct type stored through the reflective codec and hashed by
// the default hasher; long values are collapsed on commit.
type vxRec struct {
	A uint64
	B []byte
}

func VH_Typed() {
	d := db.NewMemDB()
	na, va := vxAdapters(d)
	typ := reflect.TypeOf((*vxRec)(nil))
	t := NewTrieWithValueType(nil, na, va, typ)
	k1, k2 := vxKeyN(1), vxKeyN(1)
	long := vChoose(2) == 1
	b := vBytes(2)
	if long {
		b = append(b, make([]byte, 5000)...)
	}
	r1, r2 := &vxRec{vU64(), b}, &vxRec{7, []byte{1}}
	t.Put(k1, r1)
	t.Put(k2, r2)
	same := vxSame(k1, k2)
	for i := 0; i < 3; i++ {
		vAssert(t.Commit() == nil, "commit succeeds")
	}
	root := vxRoot(t)
	for _, x := range []*Trie{t, NewTrieWithValueType(root, na, va, typ)} {
		v, ok := x.Get(k1)
		vAssert(ok, "typed value present")
		g := v.(*vxRec)
		if same {
			vAssert(g.A == 7 && len(g.B) == 1, "typed value overwritten")
		} else {
			vAssert(g.A == r1.A && vxSame(g.B, b), "typed value reloaded")
		}
	}
	vReach("typed")
}
