//verif:pkg trie

package trie

import (
	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

func vxHash32() (h common.Hash) {
	copy(h[:], vBytes(32))
	return
}

func vxValueHash(v uint32) common.Hash {
	b, _ := common.Hash256s([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	return common.BytesToHash(b)
}

func vxProofs(t *Trie, m *vxModel, root []byte) {
	for _, e := range m.e {
		v, proof, ok := t.GetProof(e.k)
		vAssert(ok == e.live, "a proof exists exactly for present keys")
		if !ok {
			continue
		}
		vAssert(v == interface{}(e.v), "the proof comes with the value")
		want := vxValueHash(e.v)
		got, err := proof.Proof(want)
		vAssert(err == nil && vxSame(got, root), "the proof evaluates to the root")
		vAssert(VerifyProofChain(want, proof, root), "VerifyProofChain accepts")
		vAssert(proof.Equal(proof.Clone()), "a proof equals its clone")
		other := vxHash32()
		vAssume(!vxSame(other[:], want[:]))
		got, err = proof.Proof(other)
		vAssert(err != nil || !vxSame(got, root), "no other value evaluates to the root")
		vAssert(!VerifyProofChain(other, proof, root), "VerifyProofChain refuses another value")
		mp, err := proof.ToMerkles()
		vAssert(err == nil, "ToMerkles")
		mr, err := mp.Proof(want)
		vAssert(err == nil && vxSame(mr, root), "the flattened proof evaluates to the root")
	}
}

func VH_Proofs() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	var m vxModel
	n := vBound("operations", 3, 4)
	for i := 0; i < n; i++ {
		vxStep(t, &m, vBound("key bytes", 1, 2), i == n-1)
	}
	if vChoose(2) == 1 {
		vAssert(t.Commit() == nil, "commit succeeds")
		t = vxTrie(vxRoot(t), d)
	}
	vxProofs(t, &m, vxRoot(t))
	vReach("proofs")
}

// Many children of one node.
func VH_Wide() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	n := vChoose(16) + 1
	if vChoose(2) == 1 {
		v := vU32()
		t.Put([]byte{}, v)
		m.put([]byte{}, v)
	}
	for i := 0; i < n; i++ {
		k := []byte{byte(i<<4) | byte(i)}
		v := vU32()
		t.Put(k, v)
		m.put(k, v)
	}
	vxProofs(t, &m, vxRoot(t))
	vReach("wide")
}
