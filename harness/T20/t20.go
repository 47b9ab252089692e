//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

func vxHistOp(h *HistoryTree, n int, val []byte, proofs ProofChain) {
	key := func() uint64 { return vxKeyNear(uint64(n)) }
	vMust("operation blocks or panics", func() {
		switch vChoose(13) {
		case 0:
			h.Expecting()
		case 1:
			_ = h.String()
		case 2:
			h.Rebase(db.NewMemDB())
		case 3:
			h.Clone()
		case 4:
			h.HashValue()
		case 5:
			h.CommitAndHash()
		case 6:
			h.CollapseBefore(key())
		case 7:
			h.Append(key(), val)
		case 8:
			h.Has(key())
		case 9:
			h.Get(key())
		case 10:
			h.GetProof(key())
		case 11:
			h.MergeProof(key(), val, proofs)
		case 12:
			h.Chop(key())
		}
	})
	vMust("a later operation blocks", func() { h.Expecting() })
	vReach("op")
}

func vxHistState() (*HistoryTree, int, ProofChain, []byte) {
	n := []int{0, 17, 35, 1, 49, 257}[vChoose(vBound("history lengths", 3, 6))]
	d := db.NewMemDB()
	vals := vxFixed(n)
	h := vxHistory(d, vals)
	var proofs ProofChain
	val := make([]byte, 32)
	if n > 0 {
		val, proofs, _ = h.GetProof(uint64(n - 1))
	}
	switch vChoose(4) {
	case 1:
		vAssert(h.Commit() == nil, "commit")
	case 2:
		vAssert(h.Commit() == nil, "commit")
		h = vxHist(d, vxHistRoot(h))
	case 3:
		if n > 0 {
			r, err := RestoreTreeFromProofs(db.NewMemDB(), []byte("h"), uint64(n-1), val, proofs)
			vAssert(err == nil, "restored")
			h = r
		}
	}
	return h, n, proofs, val
}

func VH_History() {
	h, n, proofs, val := vxHistState()
	vxHistOp(h, n, val, proofs)
}

func VH_Revertable() {
	h, n, proofs, val := vxHistState()
	r := &RevertableHistoryTree{Origin: h}
	switch vChoose(3) {
	case 1:
		r.Append(h.Expecting(), val)
	case 2:
		r.Origin = nil
	}
	key := func() uint64 { return vxKeyNear(uint64(n)) }
	vMust("operation blocks or panics", func() {
		switch vChoose(15) {
		case 0:
			r.Expecting()
		case 1:
			_ = r.String()
		case 2:
			r.Rebase(db.NewMemDB())
		case 3:
			r.HashValue()
		case 4:
			r.CommitAndHash()
		case 5:
			r.CollapseBefore(key())
		case 6:
			r.Append(key(), val)
		case 7:
			r.Has(key())
		case 8:
			r.Get(key())
		case 9:
			r.GetProof(key())
		case 10:
			r.MergeProof(key(), val, proofs)
		case 11:
			r.PreHashValue()
		case 12:
			r.PreCommit()
		case 13:
			r.PreCollapseBefore(key())
		case 14:
			r.Commit()
		}
	})
	vMust("a later operation blocks", func() { r.Expecting() })
	r.Rollback()
	vReach("op")
}
