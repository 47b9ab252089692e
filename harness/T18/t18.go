//verif:pkg trie

package trie

import "bytes"

func vxNibbles(n int) []byte {
	b := vBytes(n)
	for _, x := range b {
		vAssume(x < 16)
	}
	return b
}

// Keys and nibbles.
func VH_Keys() {
	n := vChoose(vBound("bytes of a key", 20, 40))
	k := vBytes(n)
	keep := append([]byte{}, k...)
	p := keyToPrefix(k)
	vAssert(len(p) == 2*n, "two nibbles for a byte")
	ok := true
	for i := range k {
		ok = vAnd(ok, vAnd(p[2*i] == k[i]>>4, p[2*i+1] == k[i]&15))
	}
	vAssert(ok, "the high one first")
	vAssert(bytes.Equal(prefixToKey(p), k) && bytes.Equal(k, keep), "and back")
	other := vBytes(n)
	vAssert(vOr(bytes.Equal(other, k), vNot(bytes.Equal(keyToPrefix(other), p))), "another key has another path")
	vReach("keys")
}

// Paths within a node: the first nibble of an odd one is in the node's type.
func VH_Nodes() {
	n := vChoose(vBound("nibbles of a node", 20, 48))
	p := vxNibbles(n)
	keep := append([]byte{}, p...)
	node := &node{prefix: append([]byte{}, p...)}
	h := newNodeHeader(node)
	got := keystringToPrefix(h.NT, h.KeyString)
	vAssert(bytes.Equal(got, p), "the path of the node comes back")
	vAssert(bytes.Equal(p, keep), "and is left alone")
	var b bytes.Buffer
	vAssert(h.Serialization(&b) == nil, "written")
	nt := h.NT
	var r NodeHeader
	_, err := r.Deserialization(&b)
	vAssert(err == nil && r.NT == nt && bytes.Equal(keystringToPrefix(r.NT, r.KeyString), p) && b.Len() == 0, "through its header")
	vReach("nodes")
}

// The children that a node has are told by its header.
func VH_Children() {
	n := &node{prefix: vxNibbles(vChoose(3))}
	i, j := vChoose(childrenLength), vChoose(childrenLength)
	n.children[vConc(i)], n.children[vConc(j)] = &node{}, &node{}
	h := newNodeHeader(n)
	var b bytes.Buffer
	vAssert(h.Serialization(&b) == nil, "written")
	var r NodeHeader
	_, err := r.Deserialization(&b)
	vAssert(err == nil && r.Equal(*h) && bytes.Equal(r.KeyToPrefix(), n.prefix), "through its header")
	for k := 0; k < childrenLength; k++ {
		vAssert(r.HasChild(k) == (k == i || k == j), "child")
	}
	t, err := r.KeyString.MarshalText()
	vAssert(err == nil, "text")
	var back KeyPart
	if len(t) > 0 {
		vAssert(back.UnmarshalText(t) == nil && bytes.Equal(back, r.KeyString), "through its text")
	}
	t, err = r.ChildrenFlag.MarshalText()
	var flag ChildFlag
	vAssert(err == nil && flag.UnmarshalText(t) == nil && flag == h.ChildrenFlag, "children through their text")
	vReach("children")
}

// Paths of different lengths in the same number of bytes differ.
func VH_Distinct() {
	n := vChoose(vBound("nibbles of two nodes", 8, 12))
	m := vChoose(n + 1)
	p, q := vxNibbles(n), vxNibbles(m)
	a, b := newNodeHeader(&node{prefix: p}), newNodeHeader(&node{prefix: q})
	same := vAnd(a.NT == b.NT, bytes.Equal(a.KeyString, b.KeyString))
	vAssert(vOr(vNot(same), bytes.Equal(p, q)), "another path has another header")
	vReach("distinct")
}

func VH_Hex() {
	n := vChoose(vBound("nibbles in hexadecimal", 16, 40))
	p := vxNibbles(n)
	s := prefixToHexstring(p)
	vAssert(len(s) == n && bytes.Equal(hexstringToPrefix(s), p), "through hexadecimal")
	vReach("hex")
}

func VH_Heights() {
	h, g := vU64(), vU64()
	p := heightToPrefix(h)
	ok := len(p) == HistoryTreeDepth
	for i, x := range p {
		ok = vAnd(ok, x == byte(h>>uint(60-4*i))&15)
	}
	vAssert(ok, "the nibbles of the height, the highest first")
	back, err := prefixToHeight(p)
	vAssert(err == nil && back == h, "and back")
	vAssert(vOr(h == g, vNot(bytes.Equal(p, heightToPrefix(g)))), "another height has another path")
	_, err = prefixToHeight(p[:vChoose(HistoryTreeDepth)])
	vAssert(err != nil, "shorter paths are refused")
	vReach("heights")
}

func VH_Bits() {
	n := 1 + vChoose(8)
	b := vU8()
	bits, err := ToBinary(b, n)
	vAssert(err == nil && len(bits) == n, "bits")
	ok := true
	for i, x := range bits {
		ok = vAnd(ok, x == b>>uint(n-1-i)&1)
	}
	vAssert(ok, "the highest bit first")
	got, err := ToByte(bits)
	vAssert(err == nil && got == b&byte(1<<uint(n)-1), "and back")
	for _, bad := range []int{-1, 0, 9} {
		_, err = ToBinary(b, bad)
		vAssert(err != nil, "illegal lengths are refused")
	}
	_, err = ToByte(make([]byte, 9))
	vAssert(err != nil, "more than a byte is refused")
	vReach("bits")
}

// What two paths have in common.
func VH_Match() {
	n := vChoose(vBound("nibbles to match", 7, 12))
	m := vChoose(vBound("nibbles to match", 7, 12))
	p, q := vxNibbles(n), vxNibbles(m)
	l := vConc(matchPrefix(p, q))
	vAssert(l <= n && l <= m && bytes.Equal(p[:l], q[:l]), "is a prefix of both")
	vAssert(l == n || l == m || p[l] != q[l], "the longest")
	vReach("match")
}
