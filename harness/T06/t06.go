//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

func vxExistence(t *Trie, m *vxModel, root, k []byte) {
	if len(k) == 0 {
		return
	}
	present := m.get(k) != nil
	exist, proofs, err := t.GetExistenceProof(k)
	vAssert(err == nil, "an existence proof is produced")
	vAssert(exist == present, "the answer is membership")
	says, err := proofs.IsExist(k)
	vAssert(err == nil, "the proof decides its key")
	vAssert(says == present, "the proof decides as the trie")
	h, err := proofs.ExistenceHash()
	vAssert(err == nil && vxSame(h, root), "the proof evaluates to the root")
}

func VH_Existence() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations", 2, 3)
	for i := 0; i < n; i++ {
		vxStep(t, &m, vBound("key bytes", 2, 2), i > 0)
	}
	if vChoose(2) == 1 {
		vAssert(t.Commit() == nil, "commit succeeds")
		t = vxTrie(vxRoot(t), d)
	}
	root := vxRoot(t)
	for _, e := range m.e {
		vxExistence(t, &m, root, e.k)
	}
	vxExistence(t, &m, root, vxKeyN(2))
	vReach("existence")
}

// The proof made for one key, read as a proof about another one, never says
// that an absent key is present or a present one absent.
func VH_Other() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	for i := 0; i < vBound("keys when a proof is used for another key", 2, 3); i++ {
		vxStep(t, &m, 2, false)
	}
	k, o := vxKey(2), vxKey(2)
	_, proofs, err := t.GetExistenceProof(k)
	vAssert(err == nil, "an existence proof is produced")
	says, err := proofs.IsExist(o)
	if err == nil {
		vAssert(says == (m.get(o) != nil), "a proof made for another key does not mislead")
	}
	vReach("other")
}

func VH_Empty() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	vxExistence(t, &m, vxRoot(t), vBytes(vChoose(3)+1))
	vReach("empty")
}
