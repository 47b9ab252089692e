//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

func VH_Proof() {
	n := vxHistLen(vBound("appended heights", 129, 300))
	var i int
	if n <= 20 {
		i = vChoose(n)
	} else {
		i = vxPick(n)
	}
	d := db.NewMemDB()
	vals := vxSome(n, i-1, i, i+1, 0, n-1)
	h := vxHistory(d, vals)
	root := vxHistRoot(h)
	if vChoose(2) == 1 {
		vAssert(h.Commit() == nil, "commit succeeds")
		h = vxHist(d, root)
	}
	proofs := vxHistProof(h, uint64(i), vals[i], root, "history proof")
	vAssert(proofs.BigKey().IsUint64() && proofs.BigKey().Uint64() == uint64(i), "the proof names its height")
	r, err := proofs.HistoryProof(common.Height(i), vals[i])
	vAssert(err == nil && bytes.Equal(r, root), "HistoryProof gives the root")
	wrong := vU64()
	vAssume(wrong != uint64(i) && !common.Height(wrong).IsNil())
	_, err = proofs.HistoryProof(common.Height(wrong), vals[i])
	vAssert(err != nil, "HistoryProof refuses another height")
	other := vBytes(32)
	vAssume(!bytes.Equal(other, vals[i]))
	got, err := proofs.Proof(common.BytesToHash(other))
	vAssert(err != nil || !bytes.Equal(got, root), "no other value evaluates to the root")
	vReach("proof")
}
