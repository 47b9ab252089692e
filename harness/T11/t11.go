//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

type vxLive struct{ r *RevertableTrie }

func (l vxLive) Get(k []byte) (interface{}, bool) { return l.r.GetLive(k) }

func vxLiveIs(r *RevertableTrie, m *vxModel, what string) {
	vxAgreeAll(vxLive{r}, m, what)
	h, err := r.PreHashValue()
	vAssert(err == nil && vxSame(h, vxRoot(vxBuild(m, 0, false))), what+": root")
}

// Checkpoints at arbitrary moments, then revert to any of them.
func VH_Revert() {
	vxTiny = vBound("tiny key alphabet", 1, 0) == 1
	d := db.NewMemDB()
	r := &RevertableTrie{Origin: vxTrie(nil, d)}
	var m vxModel
	max := vBound("key bytes", 1, 1)
	if vChoose(2) == 1 {
		v := vU32()
		r.Put([]byte{0x01}, v)
		m.put([]byte{0x01}, v)
		vAssert(r.Commit() == nil, "commit succeeds")
	}
	committed := m.clone()
	type chk struct {
		id   int
		root []byte
		m    *vxModel
	}
	var cs []chk
	n := vBound("checkpoints", 2, 3)
	for i := 0; i < n; i++ {
		if vChoose(2) == 1 {
			vxStep(r, &m, max, true)
		}
		id, root, err := r.CheckPoint()
		vAssert(err == nil && id == i, "checkpoint taken")
		cs = append(cs, chk{id, append([]byte{}, root...), m.clone()})
		vAssert(vxSame(root, vxRoot(vxBuild(&m, 0, false))), "checkpoint root")
	}
	if vChoose(2) == 1 {
		vxStep(r, &m, max, true)
	}
	c := cs[vChoose(n)]
	vAssert(r.RevertTo(c.id, c.root) == nil, "revert succeeds")
	// keys touched later must be back in their earlier state
	for _, e := range m.e {
		vxAgree(vxLive{r}, c.m, e.k, "reverted")
	}
	vxLiveIs(r, c.m, "reverted")
	vxAgreeAll(r, committed, "committed side")
	m2 := c.m.clone()
	if vChoose(2) == 0 {
		vxStep(r, m2, max, true)
		vxLiveIs(r, m2, "changed after reverting")
		vAssert(r.Commit() == nil, "commit succeeds")
		vxAgreeAll(r, m2, "committed after reverting")
		h, err := r.HashValue()
		vAssert(err == nil && vxSame(h, vxRoot(vxBuild(m2, 0, false))), "root after the commit")
	} else {
		r.Rollback()
		vxAgreeAll(r, committed, "rolled back")
		vxLiveIs(r, committed, "rolled back")
	}
	vReach("revert")
}

// A checkpoint with another root, unknown or used up is refused and changes nothing.
func VH_Refuse() {
	vxTiny = false
	r := &RevertableTrie{Origin: vxTrie(nil, db.NewMemDB())}
	var m vxModel
	vxStep(r, &m, 1, false)
	id, root, err := r.CheckPoint()
	vAssert(err == nil, "checkpoint taken")
	vxStep(r, &m, 1, true)
	bad := append([]byte{}, root...)
	switch vChoose(4) {
	case 0:
		bad[vChoose(32)] ^= 1
		vAssert(r.RevertTo(id, bad) != nil, "a wrong root is refused")
	case 1:
		vAssert(r.RevertTo(id+1+int(vU8()), root) != nil, "an unknown checkpoint is refused")
	case 2:
		vAssert(r.RevertTo(-1-int(vU8()), root) != nil, "a negative checkpoint is refused")
	case 3:
		t2 := vxTrie(nil, db.NewMemDB())
		m = vxModel{}
		vxStep(t2, &m, 1, false)
		vAssert(r.SetTo(t2) == nil, "SetTo succeeds")
		vAssert(r.RevertTo(id, root) != nil, "checkpoints do not outlive SetTo")
	}
	vxLiveIs(r, &m, "after a refused revert")
	vReach("refuse")
}
