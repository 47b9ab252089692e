//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

func vxHist(d db.Database, root []byte) *HistoryTree {
	h, err := NewHistoryTree(d, []byte("h"), root, true)
	vAssert(err == nil && h != nil, "history tree opened")
	return h
}

// vxRaw is an arbitrary value; the hash of nothing stands for a missing one.
func vxRaw() []byte {
	v := vBytes(32)
	vAssume(!bytes.Equal(v, common.NilHashSlice))
	return v
}

// vxLeaf is a value that is the hash of something arbitrary, as the values
// of histories are.
func vxLeaf() []byte {
	return common.SystemHash256(vBytes(8))
}

func vxLeafs(n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, vxLeaf())
	}
	return r
}

func vxAppendAll(h *HistoryTree, vals [][]byte) {
	for _, v := range vals {
		vAssert(h.Append(h.Expecting(), v) == nil, "append of the expected height")
	}
}

// vxHistory is a plain tree holding the values.
func vxHistory(d db.Database, vals [][]byte) *HistoryTree {
	h := vxHist(d, nil)
	vxAppendAll(h, vals)
	vAssert(h.Expecting() == uint64(len(vals)), "the next height is the number of values")
	return h
}

// vxFixed are distinct concrete values.
func vxFixed(n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		v := make([]byte, 32)
		v[0], v[1], v[2], v[31] = 0xA5, byte(i>>8), byte(i), 1
		r = append(r, v)
	}
	return r
}

// vxSome fills a history of n values: arbitrary ones at the given positions,
// concrete elsewhere.
func vxSome(n int, at ...int) [][]byte {
	r := vxFixed(n)
	for _, i := range at {
		if i >= 0 && i < n {
			r[i] = vxLeaf()
		}
	}
	return r
}

// vxLens are history lengths around the boundaries of the nodes.
func vxHistLen(max int) int {
	l := []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65, 128, 129, 240, 255, 256, 257, 258, 272, 273, 300}
	n := 0
	for n < len(l) && l[n] <= max {
		n++
	}
	return l[vChoose(n)]
}

// vxHistIs compares a tree with the values it should hold.
func vxHistIs(h *HistoryTree, vals [][]byte, what string) {
	vAssert(h.Expecting() == uint64(len(vals)), what+": next height")
	for i, v := range vals {
		g, ok := h.Get(uint64(i))
		vAssert(ok && bytes.Equal(g, v), what+": value at its height")
	}
	_, ok := h.Get(uint64(len(vals)))
	vAssert(!ok, what+": nothing at the next height")
}

func vxHistProof(h *HistoryTree, key uint64, val, root []byte, what string) ProofChain {
	v, proofs, ok := h.GetProof(key)
	vAssert(ok, what+": proof produced")
	vAssert(bytes.Equal(v, val), what+": proof comes with the value")
	got, err := proofs.Proof(common.BytesToHash(val))
	vAssert(err == nil && bytes.Equal(got, root), what+": proof evaluates to the root")
	return proofs
}

func vxHistRoot(h *HistoryTree) []byte {
	r, err := h.HashValue()
	vAssert(err == nil, "root hash computed")
	return append([]byte{}, r...)
}

// vxPick is an index of interest of a history of n values.
func vxPick(n int) int {
	switch vChoose(4) {
	case 0:
		return 0
	case 1:
		return n - 1
	case 2:
		return n / 2
	}
	return (n - 1) &^ 15
}

// vxKeyNear differs from the number in one arbitrary hexadecimal digit.
func vxKeyNear(at uint64) uint64 {
	pos := []uint{0, 1, 15, 2, 14, 7, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13}
	sh := 4 * pos[vChoose(vBound("hexadecimal digits of a height varied", 3, 16))]
	return at&^(15<<sh) | uint64(vU8()&15)<<sh
}
