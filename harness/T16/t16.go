//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common/db"
)

func vxRestored(h *HistoryTree, n int, val, root []byte, d db.Database) *HistoryTree {
	proofs := vxHistProof(h, uint64(n-1), val, root, "last value")
	r, err := RestoreTreeFromProofs(d, []byte("h"), uint64(n-1), val, proofs)
	vAssert(err == nil && r != nil, "restored from the proof of the last value")
	return r
}

func VH_Restore() {
	n := vxHistLen(vBound("appended heights", 49, 300))
	more := vBound("values appended afterwards", 3, 18)
	vals := vxSome(n+more, 0, n/2, n-2, n-1, n, n+1)
	d, d2 := db.NewMemDB(), db.NewMemDB()
	h := vxHistory(d, vals[:n])
	root := vxHistRoot(h)
	r := vxRestored(h, n, vals[n-1], root, d2)
	vAssert(r.Expecting() == uint64(n), "restored: next height")
	if vChoose(2) == 1 {
		vAssert(bytes.Equal(vxHistRoot(r), root), "restored: same root")
	}
	commit := vChoose(3)
	for i := n; i < n+more; i++ {
		if commit == 1 {
			vAssert(r.Commit() == nil, "commit succeeds")
		}
		if commit == 2 {
			vAssert(r.Commit() == nil, "commit succeeds")
			var err error
			r, err = NewHistoryTree(d2, []byte("h"), vxHistRoot(r), false)
			vAssert(err == nil, "restored tree reopened")
		}
		vAssert(r.Append(uint64(i), vals[i]) == nil, "restored: append")
		vAssert(h.Append(uint64(i), vals[i]) == nil, "original: append")
		vAssert(bytes.Equal(vxHistRoot(r), vxHistRoot(h)), "same root after appending")
	}
	for i := n - 1; i < n+more; i++ {
		v, ok := r.Get(uint64(i))
		vAssert(ok && bytes.Equal(v, vals[i]), "restored: values from the restored one on")
		vxHistProof(r, uint64(i), vals[i], vxHistRoot(h), "restored")
	}
	vReach("restore")
}

// Merging proofs of other heights adds exactly their values.
func VH_Merge() {
	n := vxHistLen(vBound("appended heights before merging", 33, 273))
	if n < 2 {
		n = 2
	}
	i, j := vxPick(n-1), vChoose(2)*(n/2)
	if vChoose(2) == 1 {
		i = (n - 1) ^ 1
		if i >= n {
			i = 0
		}
	}
	vals := vxSome(n, i, j, n-1)
	d2 := db.NewMemDB()
	h := vxHistory(db.NewMemDB(), vals)
	root := vxHistRoot(h)
	r := vxRestored(h, n, vals[n-1], root, d2)
	step := vChoose(4)
	if step == 1 {
		g, ok := r.Get(uint64(i))
		vAssert(!ok || bytes.Equal(g, vals[i]), "a value not merged yet is absent or right")
		vAssert(bytes.Equal(vxHistRoot(r), root), "looking up keeps the root")
	}
	for _, k := range []int{i, j} {
		if step == 2 {
			vAssert(r.Commit() == nil, "commit succeeds")
		}
		p := vxHistProof(h, uint64(k), vals[k], root, "original")
		bad := vBytes(32)
		vAssume(!bytes.Equal(bad, vals[k]))
		vAssert(r.MergeProof(uint64(k), bad, p) != nil, "a wrong value is not merged")
		vAssert(r.MergeProof(uint64(k)+1, vals[k], p) != nil, "a wrong height is not merged")
		vAssert(bytes.Equal(vxHistRoot(r), root), "refused merge keeps the root")
		vAssert(r.MergeProof(uint64(k), vals[k], p) == nil, "a proof of the same tree is merged")
		v, ok := r.Get(uint64(k))
		vAssert(ok && bytes.Equal(v, vals[k]), "the merged value is there")
		vAssert(bytes.Equal(vxHistRoot(r), root), "merging keeps the root")
	}
	if step == 3 {
		vAssert(r.Commit() == nil, "commit succeeds")
		var err error
		r, err = NewHistoryTree(d2, []byte("h"), root, false)
		vAssert(err == nil && r != nil, "merged tree reopened")
	}
	for _, k := range []int{i, j, n - 1} {
		v, ok := r.Get(uint64(k))
		vAssert(ok && bytes.Equal(v, vals[k]), "merged and restored values are there")
		vxHistProof(r, uint64(k), vals[k], root, "merged")
	}
	vAssert(r.Expecting() == uint64(n), "merging keeps the next height")
	nv := vxLeaf()
	vAssert(r.Append(uint64(n), nv) == nil && h.Append(uint64(n), nv) == nil, "append after merging")
	vAssert(bytes.Equal(vxHistRoot(r), vxHistRoot(h)), "root after merging and appending")
	vReach("merge")
}
