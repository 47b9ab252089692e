//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

// vxHistStep does something that must not influence later roots.
func vxHistStep(h *HistoryTree, d db.Database, n int, full bool) *HistoryTree {
	k := 5
	if full {
		k = 8
	}
	switch vChoose(k) {
	case 1:
		vxHistRoot(h)
	case 2:
		vAssert(h.Commit() == nil, "commit succeeds")
	case 3:
		vAssert(h.Commit() == nil, "commit succeeds")
		h = vxHist(d, vxHistRoot(h))
	case 4:
		vAssert(h.Commit() == nil, "commit succeeds")
		for k := 0; k <= n; k += 16 {
			_ = h.CollapseBefore(uint64(k))
		}
	case 5:
		r, err := h.CommitAndHash()
		vAssert(err == nil && bytes.Equal(r, vxHistRoot(h)), "CommitAndHash gives the root")
	case 6:
		h = h.Clone()
		vAssert(h != nil, "clone")
	case 7:
		for k := 0; k < n; k += 7 {
			h.GetProof(uint64(k))
		}
	}
	return h
}

func VH_Interleaved() {
	n := vxHistLen(vBound("appended heights", 49, 300))
	vals := vxSome(n, 0, 1, n/2, n-2, n-1)
	d := db.NewMemDB()
	h := vxHist(d, nil)
	at := []int{n / 3, (n - 1) &^ 15, n - 1}
	for i, v := range vals {
		for _, a := range at {
			if i == a {
				h = vxHistStep(h, d, i, n <= vBound("heights with every kind of step", 9, 49))
				break
			}
		}
		vAssert(h.Append(uint64(i), v) == nil, "append of the expected height")
	}
	want := vxHistRoot(vxHistory(db.NewMemDB(), vals))
	vAssert(bytes.Equal(vxHistRoot(h), want), "the root is a function of the values")
	vReach("interleaved")
}

// Different values give different roots.
func VH_Binding() {
	n := vxHistLen(vBound("values in two histories", 33, 273))
	i := vxPick(n)
	a := vxSome(n, i)
	b := vxSome(n, i)
	x, y := vxHistory(db.NewMemDB(), a), vxHistory(db.NewMemDB(), b)
	if vChoose(2) == 1 {
		vxHistRoot(x)
	}
	vAssert(bytes.Equal(vxHistRoot(x), vxHistRoot(y)) == bytes.Equal(a[i], b[i]), "equal roots exactly for equal values")
	vReach("binding")
}

// All values arbitrary.
func VH_BindingAll() {
	n := vChoose(vBound("arbitrary values in two histories", 6, 18)) + 1
	a, b := vxLeafs(n), vxLeafs(n)
	same := true
	for i := range a {
		same = vAnd(same, bytes.Equal(a[i], b[i]))
	}
	r, q := vxHistRoot(vxHistory(db.NewMemDB(), a)), vxHistRoot(vxHistory(db.NewMemDB(), b))
	vAssert(bytes.Equal(r, q) == same, "equal roots exactly for equal sequences")
	vReach("binding all")
}

func VH_EmptyRoot() {
	h := vxHist(db.NewMemDB(), nil)
	vAssert(bytes.Equal(vxHistRoot(h), common.NilHashSlice), "root of an empty history")
	g := vxHist(db.NewMemDB(), vxHistRoot(h))
	vAssert(g.Expecting() == 0, "reopened empty history")
	vReach("empty")
}
