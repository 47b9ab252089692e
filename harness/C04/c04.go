//verif:pkg .

package common

import (
	"bytes"
	"math/big"
)

type vxStep struct {
	h     Hash
	order bool
}

// vxSteps: every pattern of repeats of three hashes.
func vxSteps(n int) []vxStep {
	var hs [3]Hash
	for i := range hs {
		hs[i] = Hash256(vBytes(1), []byte{byte(i)})
	}
	r := make([]vxStep, n)
	cur := 0
	for i := range r {
		if i > 0 {
			cur = (cur + vChoose(vBound("next hashes", 2, 3))) % 3
		}
		r[i] = vxStep{hs[cur], vBool()}
	}
	return r
}

func vxProof(s []vxStep) *MerkleProofs {
	p := NewMerkleProofs()
	for _, x := range s {
		p.Append(x.h, x.order)
	}
	return p
}

func vxIs(p *MerkleProofs, s []vxStep, what string) {
	vAssert(p.Len() == len(s), what+": length")
	i := 0
	err := p.Iterate(func(v []byte, order bool) error {
		vAssert(i < len(s), what+": not more steps")
		vAssert(bytes.Equal(v, s[i].h[:]) && order == s[i].order, what+": the same steps")
		i++
		return nil
	})
	vAssert(err == nil && i == len(s), what+": all steps")
}

func VH_Sequence() {
	s := vxSteps(vChoose(vBound("steps", 6, 8) + 1))
	p := vxProof(s)
	vxIs(p, s, "appended")
	items, err := p.ToItems()
	vAssert(err == nil && len(items) == len(s), "items")
	for i, x := range s {
		vAssert(items[i].Val == x.h && items[i].Order == x.order, "item")
		h, o, err := p.Get(i)
		vAssert(err == nil && h == x.h && o == x.order && p.Order(i) == x.order, "Get")
	}
	_, _, err = p.Get(len(s))
	_, _, err2 := p.Get(-1)
	vAssert(err != nil && err2 != nil, "Get outside")
	runs := 0
	for i := range s {
		if i == 0 || s[i].h != s[i-1].h {
			runs++
		}
	}
	vAssert(len(p.Hashs) == runs, "repeated hashes are stored once")
	vAssert(p.Repeats.IsValid(), "the repeats are valid")
	// evaluation
	x := Hash256(vBytes(1), []byte("x"))
	want := x[:]
	for _, st := range s {
		if st.order {
			want = Hash256NoError(st.h[:], want)
		} else {
			want = Hash256NoError(want, st.h[:])
		}
	}
	got, err := p.Proof(x)
	vAssert(err == nil && bytes.Equal(got, want), "evaluation hashes pairwise along the steps")
	// key
	k := big.NewInt(0)
	at := vChoose(3)
	vAssert(p.BigKey(k, at) == at+len(s), "BigKey length")
	for i, st := range s {
		vAssert((k.Bit(at+i) == 1) == st.order, "BigKey bits")
	}
	vReach("sequence")
}

func VH_Clone() {
	n := vChoose(vBound("steps of a copy", 4, 6) + 1)
	s := vxSteps(n)
	p := vxProof(s)
	c := p.Clone()
	vAssert(p.Equal(c) && c.Equal(p), "copies are equal")
	h := Hash256(vBytes(1), []byte{0})
	if n > 0 && vChoose(2) == 0 {
		h = s[n-1].h
	}
	o := vBool()
	c.Append(h, o)
	vxIs(p, s, "original")
	vxIs(c, append(append([]vxStep{}, s...), vxStep{h, o}), "copy")
	vAssert(!p.Equal(c) && !c.Equal(p), "different lengths differ")
	p.Append(h, !o)
	vAssert(!p.Equal(c) && !c.Equal(p), "different sides differ")
	vxIs(c, append(append([]vxStep{}, s...), vxStep{h, o}), "copy")
	vReach("clone")
}

func VH_Equal() {
	n := 1 + vChoose(vBound("steps", 4, 5))
	s := vxSteps(n)
	m := append([]vxStep{}, s...)
	k := vChoose(n)
	if vChoose(2) == 0 {
		m[k].order = vBool()
	} else {
		m[k].h = Hash256(vBytes(1), []byte{1})
	}
	vAssert(vxProof(s).Equal(vxProof(m)) == (s[k].h == m[k].h && s[k].order == m[k].order), "equal exactly when the steps are")
	vReach("equal")
}

func VH_MoreTimes() {
	var ms MoreTimes
	n := vChoose(vBound("repeats", 5, 7))
	var count [4]int
	last := 0
	for i := 0; i < n; i++ {
		k := vChoose(4) - 1
		keep := ms.Clone()
		ms = ms.Append(k)
		if k < 0 || (i > 0 && k < last && len(keep) > 0) {
			vAssert(ms.Equal(keep), "an earlier index is ignored")
			continue
		}
		last = k
		count[k]++
	}
	vAssert(ms.IsValid(), "valid")
	total := 0
	for k := 0; k < 4; k++ {
		t, ok := ms.Find(k)
		vAssert(ok == (count[k] > 0) && t == count[k], "Find")
		total += count[k]
	}
	vAssert(ms.Count() == total, "Count")
	full := 0
	for k := 0; k < 4; k++ {
		for j := 0; j <= count[k]; j++ {
			vAssert(ms.GetHashsIndex(full) == k, "index of a repeated hash")
			full++
		}
	}
	vReach("moretimes")
}

func VH_Nil() {
	var p *MerkleProofs
	vAssert(p.Len() == 0 && p.Clone() == nil && p.Equal(nil) && !p.Equal(NewMerkleProofs()) && !NewMerkleProofs().Equal(p), "nil proof")
	h := Hash256(vBytes(2))
	r, err := p.Proof(h)
	q, err2 := NewMerkleProofs().Proof(h)
	vAssert(err == nil && err2 == nil && bytes.Equal(r, h[:]) && bytes.Equal(q, h[:]), "an empty proof leads to the hash itself")
	vReach("nil")
}
