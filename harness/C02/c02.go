//verif:pkg .

package common

import "bytes"

// vxLeaf is a hash that is symbolic through its preimage.
func vxLeaf() []byte { return Hash256NoError(vBytes(1), []byte("leaf")) }

func vxLeaves(n int) [][]byte {
	r := make([][]byte, n)
	for i := range r {
		r[i] = vxLeaf()
	}
	return r
}

func vxPow(n int) int {
	p := 2
	for p < n {
		p <<= 1
	}
	return p
}

// vxComplete is the root of the balanced tree over l, filled up to size with the nil hash.
func vxComplete(l [][]byte, size int) []byte {
	if size == 1 {
		if len(l) == 0 {
			return NilHashSlice
		}
		return l[0]
	}
	h := size / 2
	a, b := l, [][]byte(nil)
	if len(l) > h {
		a, b = l[:h], l[h:]
	}
	return Hash256NoError(vxComplete(a, h), vxComplete(b, h))
}

// vxPadded is the root where every odd layer gets one nil hash.
func vxPadded(l [][]byte) []byte {
	for first := true; first || len(l) > 1; first = false {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			r := NilHashSlice
			if i+1 < len(l) {
				r = l[i+1]
			}
			n = append(n, Hash256NoError(l[i], r))
		}
		l = n
	}
	return l[0]
}

func vxCheck(l [][]byte, want []byte, f func([][]byte, int, *MerkleProofs) ([]byte, error), what string) {
	keep := CopyBytesSlice(l)
	k := vChoose(len(l))
	p := NewMerkleProofs()
	root, err := f(l, k, p)
	vAssert(err == nil && bytes.Equal(root, want), what+": root")
	plain, err := f(l, -1, nil)
	vAssert(err == nil && bytes.Equal(plain, want), what+": root without a proof")
	vAssert(len(l) == len(keep) && BytesSliceEqual(l, keep), what+": the hashes are kept")
	r, err := p.Proof(BytesToHash(keep[k]))
	vAssert(err == nil && bytes.Equal(r, want), what+": the proof leads from the hash to the root")
	other := vxLeaf()
	if !bytes.Equal(other, keep[k]) {
		r, err = p.Proof(BytesToHash(other))
		vAssert(err == nil && !bytes.Equal(r, want), what+": the proof does not prove another hash")
	}
	depth := 1
	for 1<<depth < len(l) {
		depth++
	}
	vAssert(p.Len() == depth, what+": one step per layer")
	order := 0
	for i := 0; i < depth; i++ {
		if p.Order(i) {
			order |= 1 << i
		}
	}
	vAssert(order == k, what+": the path is the position")
	// the result does not change with the proof's later life
	root[0] ^= 1
	again, _ := f(l, k, nil)
	vAssert(bytes.Equal(again, want), what+": results are not shared")
}

func vxSizes() int {
	return 1 + vChoose(vBound("leaves", 17, 40))
}

func VH_Complete() {
	l := vxLeaves(vxSizes())
	vxCheck(l, vxComplete(l, vxPow(len(l))), MerkleHashComplete, "complete")
	vReach("complete")
}

func VH_Padded() {
	l := vxLeaves(vxSizes())
	vxCheck(l, vxPadded(l), MerkleHash, "padded")
	vReach("padded")
}

func VH_Old() {
	l := vxLeaves(1 + vChoose(5))
	vxCheck(l, vxComplete(l, vxPow(len(l))), func(h [][]byte, k int, p *MerkleProofs) ([]byte, error) {
		return MerkleHashCompleteOld(h, k, p)
	}, "old")
	vReach("old")
}

func VH_Slices() {
	n := 1 + vChoose(4)
	v, l := make([][]byte, n), make([][]byte, n)
	for i := range v {
		v[i] = vBytes(vChoose(3))
		if len(v[i]) == 0 {
			l[i] = NilHashSlice
		} else {
			l[i] = Hash256NoError(v[i])
		}
	}
	keep := CopyBytesSlice(v)
	k := vChoose(n)
	p, q := NewMerkleProofs(), NewMerkleProofs()
	a, err := SlicesMerkleHashComplete(v, k, p)
	b, err2 := SlicesMerkleHash(v, k, q)
	vAssert(err == nil && err2 == nil && bytes.Equal(a, vxComplete(l, vxPow(n))) && bytes.Equal(b, vxPadded(l)), "roots of values")
	r, err := p.Proof(BytesToHash(l[k]))
	s, err2 := q.Proof(BytesToHash(l[k]))
	vAssert(err == nil && err2 == nil && bytes.Equal(r, a) && bytes.Equal(s, b), "proofs of values")
	vAssert(BytesSliceEqual(v, keep), "the values are kept")
	vReach("slices")
}

func VH_Empty() {
	p := NewMerkleProofs()
	a, err := MerkleHashComplete(nil, 0, p)
	b, err2 := MerkleHash(nil, 0, p)
	vAssert(err == nil && err2 == nil && bytes.Equal(a, NilHashSlice) && bytes.Equal(b, NilHashSlice) && p.Len() == 0, "no hashes")
	a[0] ^= 1
	b[0] ^= 1
	c, _ := MerkleHashComplete(nil, -1, nil)
	vAssert(bytes.Equal(c, NilHash[:]), "the shared nil hash is not exposed")
	vReach("empty")
}

// With a negative position the proof holds the root itself (complete tree only).
func VH_RootOnly() {
	l := vxLeaves(1 + vChoose(4))
	p := NewMerkleProofs()
	root, err := MerkleHashComplete(l, -1, p)
	it, err2 := p.ToItems()
	vAssert(err == nil && err2 == nil && len(it) == 1 && bytes.Equal(it[0].Val[:], root) && !it[0].Order, "root appended")
	vReach("root")
}

type vxHashed struct{ b byte }

func (h vxHashed) HashValue() ([]byte, error) {
	return Hash256NoError([]byte{h.b}, []byte("value")), nil
}

// The trees over values are those over their hashes.
func VH_Values() {
	n := vChoose(vBound("values", 9, 20))
	vals := make([]vxHashed, n)
	l := make([][]byte, n)
	for i := range vals {
		vals[i].b = vU8()
		l[i] = Hash256NoError([]byte{vals[i].b}, []byte("value"))
	}
	hs, err := ValuesToHashs(vals)
	vAssert(err == nil && len(hs) == n, "a hash for each value")
	for i := range hs {
		vAssert(bytes.Equal(hs[i], l[i]), "the value's own hash, in its place")
	}
	k := vConc(vChoose(n+1)) - 1
	p1, p2, q1, q2 := NewMerkleProofs(), NewMerkleProofs(), NewMerkleProofs(), NewMerkleProofs()
	r1, e1 := ValuesMerkleHash(vals, k, p1)
	r2, e2 := MerkleHash(l, k, q1)
	vAssert(e1 == nil && e2 == nil && bytes.Equal(r1, r2), "padded tree over the values")
	r3, e3 := ValuesMerkleTreeHash(vals, k, p2)
	r4, e4 := MerkleHashComplete(l, k, q2)
	vAssert(e3 == nil && e4 == nil && bytes.Equal(r3, r4), "complete tree over the values")
	vAssert(p1.Equal(q1) && p2.Equal(q2), "the same proofs")
	_, err = ValuesToHashs(vU8())
	vAssert(err != nil, "only slices")
	vReach("values")
}
