//verif:pkg trie

package trie

import (
	"bytes"
	"io"
	"reflect"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
	"github.com/stephenfire/go-rtl"
)

// vxSlow is a reader that gives less than is asked for, nothing at times, and
// the end together with the last byte at others.
type vxSlow struct {
	b     []byte
	most  int
	zero  bool
	turn  int
	early bool
}

func (r *vxSlow) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	r.turn++
	if r.zero && r.turn%2 == 1 || len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if n > r.most {
		n = r.most
	}
	n = copy(p[:n], r.b)
	r.b = r.b[n:]
	if r.early && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func vxReader(b []byte) io.Reader {
	switch vChoose(4) {
	case 0:
		return bytes.NewReader(b)
	case 1:
		return &vxSlow{b: b, most: 1}
	case 2:
		return &vxSlow{b: b, most: 7, zero: true}
	}
	return &vxSlow{b: b, most: 1000, early: true}
}

func vxWhole(chain ProofChain, hash, root []byte) {
	b, err := rtl.Marshal(chain)
	vAssert(err == nil, "marshalled")
	var got ProofChain
	vAssert(rtl.Decode(vxReader(b), &got) == nil, "read back")
	vAssert(got.Equal(chain), "the same proof")
	again, err := rtl.Marshal(got)
	vAssert(err == nil && bytes.Equal(again, b), "the same bytes")
	clone := chain.Clone()
	vAssert(clone.Equal(chain), "a copy is equal")
	cb, err := rtl.Marshal(clone)
	vAssert(err == nil && bytes.Equal(cb, b), "and marshalled equally")
	if hash != nil {
		for _, c := range []ProofChain{got, clone} {
			r, err := c.Proof(common.BytesToHash(hash))
			vAssert(err == nil && bytes.Equal(r, root), "evaluates to the same root")
		}
	}
	// cut off
	at := []int{0, 1, 2, len(b) / 2, len(b) - 1}[vConc(vChoose(5))]
	if at < len(b) {
		var cut ProofChain
		vAssert(rtl.Decode(bytes.NewReader(b[:at]), &cut) != nil, "a part is refused")
	}
}

func vxValues(n int) (*vxModel, *Trie) {
	m := &vxModel{}
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	keys := [][]byte{{0x12}, {0x12, 0x34}, {0x19, 1}, {0x12, 0x34, 0x56}, {0x50}, {}}
	for i := 0; i < n; i++ {
		v := uint32(i)
		if i == 1 {
			v = vU32()
		}
		t.Put(keys[i], v)
		m.put(keys[i], v)
	}
	return m, t
}

// Proofs of values and of absence.
func VH_Trie() {
	n := vBound("keys of the trie", 5, 6)
	m, t := vxValues(n)
	root := vxRoot(t)
	k := m.e[vConc(vChoose(n))].k
	if vChoose(3) == 0 {
		k = append(append([]byte{}, k...), 0x77)
	}
	e := m.get(k)
	if e != nil {
		_, chain, ok := t.GetProof(k)
		vAssert(ok, "a proof")
		h, err := common.Hash256s([]byte{byte(e.v >> 24), byte(e.v >> 16), byte(e.v >> 8), byte(e.v)})
		vAssert(err == nil, "hash")
		vxWhole(chain, h, root)
	}
	exist, chain, err := t.GetExistenceProof(k)
	vAssert(err == nil && exist == (e != nil), "an existence proof")
	b, err := rtl.Marshal(chain)
	vAssert(err == nil, "marshalled")
	var got ProofChain
	vAssert(rtl.Decode(bytes.NewReader(b), &got) == nil && got.Equal(chain), "read back")
	r, err := got.ExistenceHash()
	vAssert(err == nil && bytes.Equal(r, root), "evaluates to the same root")
	for _, q := range []*vxEntry{e} {
		is, err := got.IsExist(k)
		vAssert(err == nil && is == (q != nil), "answers the same")
	}
	vReach("trie")
}

// Proofs of heights.
func VH_History() {
	n := vxHistLen(vBound("heights", 20, 129))
	i := vPickNear(n)
	vals := vxSome(n, i)
	h := vxHistory(db.NewMemDB(), vals)
	root := vxHistRoot(h)
	chain := vxHistProof(h, uint64(i), vals[i], root, "proof")
	vxWhole(chain, vals[i], root)
	vReach("history")
}

func vPickNear(n int) int {
	switch vChoose(3) {
	case 0:
		return 0
	case 1:
		return n - 1
	}
	return n / 2
}

// Proofs of every kind and with any parts.
func VH_Nodes() {
	np := &NodeProof{PType: ProofType(vU8())}
	if vChoose(2) == 1 {
		h := common.BytesToHash(vBytes(32))
		np.ValueHash = &h
	}
	n := &node{prefix: []byte{1, 2, 3}[:vConc(vChoose(3))]}
	if vChoose(2) == 1 {
		n.children[vConc(vChoose(2))*9] = &node{}
		n.children[7] = &node{}
	}
	np.Header = *newNodeHeader(n)
	switch vChoose(3) {
	case 0:
		np.ChildProofs = common.NewMerkleProofs()
	case 1:
		np.ChildProofs = common.NewMerkleProofs()
		np.ChildProofs.Append(common.BytesToHash(vBytes(32)), vBool())
		np.ChildProofs.Append(common.BytesToHash([]byte{1}), false)
	}
	chain := ProofChain{np, {PType: ProofValue}}
	if vChoose(2) == 1 {
		chain = append(chain, np.Clone())
	}
	b, err := rtl.Marshal(chain)
	vAssert(err == nil, "marshalled")
	var got ProofChain
	vAssert(rtl.Decode(vxReader(b), &got) == nil && got.Equal(chain), "read back")
	again, err := rtl.Marshal(got)
	vAssert(err == nil && bytes.Equal(again, b), "the same bytes")
	vAssert(got.Clone().Equal(chain) && chain.Equal(chain.Clone()), "a copy is equal")
	// a proof with what it proves
	h := common.BytesToHash([]byte{9})
	p := Proof{ToBeProof: &h, Proofs: chain}
	b, err = rtl.Marshal(p)
	vAssert(err == nil, "marshalled")
	var q Proof
	vAssert(rtl.Decode(bytes.NewReader(b), &q) == nil && *q.ToBeProof == h && q.Proofs.Equal(chain), "read back")
	// a copy is independent
	c := chain.Clone()
	if c[0].ValueHash != nil {
		c[0].ValueHash[0] ^= 1
		vAssert(!c.Equal(chain), "another value")
	}
	if len(c[0].Header.KeyString) > 0 {
		c[0].Header.KeyString[0] ^= 1
		vAssert(chain[0].Header.Equal(np.Header) && !c[0].Header.Equal(np.Header), "another header")
	}
	vAssert(got.Equal(chain), "the original is kept")
	vReach("nodes")
}

// Nodes of a trie, through any reader.
func VH_Node() {
	_, t := vxValues(vBound("keys of the node", 5, 6))
	root := vxRoot(t)
	n := t.root
	if vChoose(2) == 1 {
		for _, c := range n.children {
			if c != nil {
				n = c
				break
			}
		}
	}
	want, err := n.HashValue()
	vAssert(err == nil && len(root) == 32, "hash")
	var buf bytes.Buffer
	vAssert(n.Serialization(&buf) == nil, "written")
	b := append([]byte{}, buf.Bytes()...)
	r := NewNodeWithFuncs(nil, 0, vxEncode, vxDecode, vxHasher)
	_, err = r.Deserialization(vxReader(b))
	vAssert(err == nil, "read back")
	got, err := r.HashValue()
	vAssert(err == nil && bytes.Equal(got, want), "the same hash")
	buf.Reset()
	vAssert(r.Serialization(&buf) == nil && bytes.Equal(buf.Bytes(), b), "the same bytes")
	_, err = NewNodeWithFuncs(nil, 0, vxEncode, vxDecode, vxHasher).Deserialization(bytes.NewReader(b[:vConc(vChoose(len(b)))]))
	vAssert(err != nil, "a part is refused")
	vReach("node")
}

// Nodes of a history tree.
func VH_TreeNode() {
	n := []int{1, 2, 3, 15, 16, 17, 33}[vConc(vChoose(7))]
	vals := vxSome(n, n/2)
	h := vxHistory(db.NewMemDB(), vals)
	vxHistRoot(h)
	node := h.root
	for vChoose(2) == 1 && !node.isLeaf {
		node = node.Children[0]
	}
	want, err := node.HashValue()
	vAssert(err == nil, "hash")
	b, err := rtl.Marshal(node)
	vAssert(err == nil, "marshalled")
	got := NewTreeNode()
	_, err = got.Deserialization(vxReader(b))
	vAssert(err == nil, "read back")
	x, err := got.HashValue()
	vAssert(err == nil && bytes.Equal(x, want), "the same hash")
	vAssert(got.isLeaf == node.isLeaf, "of the same kind")
	for i := 0; i < childrenLength; i++ {
		p, err := node.LeafHash(i)
		q, err2 := got.LeafHash(i)
		vAssert((err == nil) == (err2 == nil) && bytes.Equal(p, q), "the same hashes below")
	}
	// the hashes within are a map, written in any order
	c, err := rtl.Marshal(got)
	vAssert(err == nil && len(b) == len(c), "as many bytes")
	var none *TreeNode
	c, err = rtl.Marshal(none)
	vAssert(err == nil, "marshalled")
	nil2, err := NewTreeNode().Deserialization(vxReader(c))
	vAssert(err == nil && nil2, "nothing comes back as nothing")
	vReach("tree node")
}

func vxValueKey(v interface{}) []byte {
	x := v.(uint32)
	return []byte{byte(x >> 8), byte(x)}
}

// The values of a trie whose keys follow from them, and a trie as a list of
// keys and values.
func VH_Values() {
	d := db.NewMemDB()
	t := vxTrie(nil, d)
	n := vBound("values", 3, 4)
	var list []uint32
	for i := 0; i < n; i++ {
		hi, lo := vU8(), vU8()
		vAssume(vAnd(vOr(hi == 0x12, hi == 0x90), vOr(lo == 1, lo == 0xff)))
		v := uint32(hi)<<8 | uint32(lo)
		list = append(list, v)
		t.Put(vxValueKey(v), v)
	}
	root := vxRoot(t)
	var buf bytes.Buffer
	vAssert(t.Marshal(&buf) == nil, "marshalled")
	u, err := t.UnmarshalNewTrie(vxReader(buf.Bytes()), reflect.TypeOf(uint32(0)), vxValueKey)
	vAssert(err == nil && bytes.Equal(vxRoot(u), root), "the same hash")
	for _, v := range list {
		x, ok := u.Get(vxValueKey(v))
		vAssert(ok && x == v, "the same values")
	}
	vAssert(u.Count() == t.Count(), "as many")
	buf.Reset()
	vAssert(MarshalAsMap(t, &buf) == nil, "marshalled as a map")
	r := rtl.NewValueReader(vxReader(buf.Bytes()), 0)
	w := vxTrie(nil, d)
	var last []byte
	for r.HasMore() {
		var k []byte
		var v uint32
		err := rtl.Decode(r, &k)
		if err == io.EOF {
			break
		}
		vAssert(err == nil && rtl.Decode(r, &v) == nil, "read back")
		vAssert(last == nil || bytes.Compare(last, k) < 0, "in order")
		last = k
		w.Put(k, v)
	}
	vAssert(bytes.Equal(vxRoot(w), root) && w.Count() == t.Count(), "the same hash")
	vReach("values")
}
