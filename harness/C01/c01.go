//verif:pkg .

package common

import (
	"bytes"
	"encoding/hex"
)

func vxLen(size int) int {
	l := []int{0, 1, 2, size - 1, size, size + 1, size + 5, 2 * size}
	return l[vChoose(len(l))]
}

// vxRight is what an identifier of the size built from b holds.
func vxRight(b []byte, size int) []byte {
	r := make([]byte, size)
	for i := 1; i <= size && i <= len(b); i++ {
		r[size-i] = b[len(b)-i]
	}
	return r
}

func VH_NodeID() {
	b := vBytes(vxLen(NodeIDBytes))
	orig := append([]byte{}, b...)
	want := vxRight(b, NodeIDBytes)
	id := BytesToNodeID(b)
	p := BytesToNodeIDP(b)
	q, err := ParseNodeIDBytes(b)
	vAssert(err == nil && bytes.Equal(id[:], want) && bytes.Equal(p.Bytes(), want) && bytes.Equal(q.Bytes(), want), "node id holds the rightmost bytes")
	h, err := ParseNodeID(hex.EncodeToString(b))
	vAssert(err == nil && bytes.Equal(h.Bytes(), want), "node id from hexadecimal text")
	full, err := ParseNodeID(id.InfoString(0))
	vAssert(err == nil && bytes.Equal(full.Bytes(), want), "node id printed and parsed")
	txt, err := id.MarshalText()
	vAssert(err == nil, "marshal")
	t := NodeID{1, 2, 3}
	vAssert(t.UnmarshalText(txt) == nil && bytes.Equal(t[:], want), "node id text round trip")
	c := id.Clone()
	n := id.New()
	vAssert(bytes.Equal(c[:], want) && bytes.Equal(n[:], want) && id.Compare(c) == 0, "clones are equal")
	c[0] ^= 1
	n[63] ^= 1
	vAssert(bytes.Equal(id[:], want) && bytes.Equal(b, orig), "clones are independent and the input is kept")
	reused := NodeID{9, 8, 7, 6}
	reused[40] = 5
	reused.SetBytes(b)
	vAssert(bytes.Equal(reused[:], want), "SetBytes replaces the value")
	vReach("nodeid")
}

func VH_NodeIDCompare() {
	var a, b NodeID
	copy(a[30:], vBytes(3))
	copy(b[30:], vBytes(3))
	a[63], b[63] = vU8(), vU8()
	c := bytes.Compare(a[:], b[:])
	vAssert(a.Compare(&b) == c && b.Compare(&a) == -c && (a == b) == (c == 0), "Compare is the byte order")
	vAssert((*NodeID)(nil).Compare(&a) == -1 && a.Compare(nil) == 1 && (*NodeID)(nil).Compare(nil) == 0, "nil is smallest")
	vAssert(NodeIDs{a, b}.Less(0, 1) == (c < 0), "Less is the byte order")
	vReach("compare")
}

func VH_NodeIDLists() {
	n := vChoose(vBound("ids", 3, 4) + 1)
	cut := []int{0, 0, 1, 63}[vChoose(4)]
	b := vBytes(n*NodeIDBytes + cut)
	ids, err := ParseBytesToNodeIds(b)
	bs, err2 := ParseBytesToNodeIdBytes(b)
	vAssert((err == nil) == (cut == 0) && (err2 == nil) == (cut == 0), "a list of ids has a multiple of the size")
	if cut != 0 {
		return
	}
	vAssert(len(ids) == n && len(bs) == n, "every id is parsed")
	orig := append([]byte{}, b...)
	for i := 0; i < n; i++ {
		vAssert(bytes.Equal(ids[i][:], orig[i*NodeIDBytes:(i+1)*NodeIDBytes]) && bytes.Equal(bs[i], orig[i*NodeIDBytes:(i+1)*NodeIDBytes]), "ids in order")
	}
	p := PackNodeIdsToBytes(ids)
	vAssert(bytes.Equal(p, orig), "packed ids")
	for i := range b {
		b[i] ^= 0xff
	}
	sl := NodeIDs(ids).ToBytesSlice()
	cl := NodeIDs(ids).Clone()
	vAssert(len(sl) == n && len(cl) == n && cl.Equal(ids), "copies of lists")
	for i := 0; i < n; i++ {
		vAssert(bytes.Equal(bs[i], orig[i*NodeIDBytes:(i+1)*NodeIDBytes]) && bytes.Equal(sl[i], bs[i]), "no memory shared with the input")
		cl[i][0] ^= 1
		sl[i][1] ^= 1
		vAssert(bytes.Equal(ids[i][:], bs[i]), "no memory shared with the copies")
	}
	vReach("lists")
}

func VH_Address() {
	b := vBytes(vxLen(AddressLength))
	orig := append([]byte{}, b...)
	want := vxRight(b, AddressLength)
	a := BytesToAddress(b)
	vAssert(bytes.Equal(a[:], want) && bytes.Equal(BytesToAddressP(b)[:], want) && bytes.Equal(a.Bytes(), want), "address holds the rightmost bytes")
	vAssert(bytes.Equal(HexToAddressBytes(hex.EncodeToString(b)), want) && bytes.Equal(HexToAddressBytes("0x"+hex.EncodeToString(b)), want), "address from hexadecimal text")
	vAssert(bytes.Equal(HexToAddressBytes(a.String()), want), "address printed and parsed")
	big := BigToAddress(a.Big())
	vAssert(bytes.Equal(big[:], want), "address through a big integer")
	h := a.Hash()
	vAssert(bytes.Equal(h[:], vxRight(want, HashLength)), "address as a hash")
	txt, err := a.MarshalText()
	t := Address{1, 2, 3}
	vAssert(err == nil && t.UnmarshalText(txt) == nil && bytes.Equal(t[:], want), "address text round trip")
	j := Address{1, 2, 3}
	vAssert(j.UnmarshalJSON([]byte("\""+string(txt)+"\"")) == nil && bytes.Equal(j[:], want), "address JSON round trip")
	vAssert(IsHexAddress(string(txt)) && IsHexAddress(a.String()), "recognised as an address")
	c, cp := a.Clone(), a.Copy()
	vAssert(a.Equal(c) && a.Cmp(cp) == 0, "copies are equal")
	c[0] ^= 1
	cp[19] ^= 1
	vAssert(bytes.Equal(a[:], want) && bytes.Equal(b, orig), "copies are independent and the input is kept")
	reused := Address{9, 8, 7, 6}
	reused.SetBytes(b)
	vAssert(bytes.Equal(reused[:], want), "SetBytes replaces the value")
	vReach("address")
}

func HexToAddressBytes(s string) []byte {
	a := HexToAddress(s)
	return a[:]
}

// Checksummed text: the case of the letters depends on the hash of the lower case text.
func VH_AddressHex() {
	a := Address{0x12, 0x34, 0, 0x99}
	i := vChoose(AddressLength)
	a[i] = vU8()
	s := a.Hex()
	vAssert(len(s) == 42 && s[:2] == "0x", "form of checksummed text")
	back := HexToAddress(s)
	vAssert(bytes.Equal(back[:], a[:]), "checksummed text round trip")
	h := Hash256([]byte(a.String()))
	low := a.String()
	for k := 2 * i; k < 2*i+2; k++ {
		n := h[k/2] >> 4
		if k%2 == 1 {
			n = h[k/2] & 15
		}
		up := vAnd(low[k] >= 'a', n >= 8)
		vAssert(s[2+k] == vIte8(up, low[k]-32, low[k]), "EIP55: a letter is upper case exactly when its hash digit is at least 8")
	}
	vReach("checksum")
}

func VH_AddressNil() {
	var p *Address
	var a Address
	copy(a[:], vBytes(2))
	a[19] = vU8()
	r := p.ForRLP()
	vAssert(*r == EmptyAddress && r.FromRLP() == nil && p.FromRLP() == nil, "nil address through RLP")
	r.SetBytes([]byte{1})
	vAssert(EmptyAddress == Address{}, "the shared empty address is not exposed")
	f := a.ForRLP()
	vAssert(*f == a, "address for RLP")
	g := f.FromRLP()
	if a == EmptyAddress {
		vAssert(g == nil, "the empty address stands for nil")
	} else {
		vAssert(*g == a, "address from RLP")
		g[3] ^= 1
		vAssert(*f == a, "independent")
	}
	vAssert(p.Equal(nil) && !p.Equal(&a) && !a.Equal(nil) && p.Cmp(&a) == -1 && a.Cmp(p) == 1 && p.Slice() == nil && p.Value() == EmptyAddress && p.Clone() == nil, "nil address")
	var b Address
	copy(b[:], vBytes(2))
	b[19] = vU8()
	c := bytes.Compare(a[:], b[:])
	vAssert(a.Cmp(&b) == c && a.Equal(&b) == (c == 0), "comparison is the byte order")
	vReach("nil")
}

func VH_Hash() {
	b := vBytes(vxLen(HashLength))
	orig := append([]byte{}, b...)
	want := vxRight(b, HashLength)
	a := BytesToHash(b)
	vAssert(bytes.Equal(a[:], want) && bytes.Equal(BytesToHashP(b)[:], want) && bytes.Equal(a.Bytes(), want) && bytes.Equal(a.Slice(), want), "hash holds the rightmost bytes")
	x, y := HexToHash(hex.EncodeToString(b)), HexToHash(a.Hex())
	vAssert(bytes.Equal(x[:], want) && bytes.Equal(y[:], want) && a.String() == a.Hex(), "hash from hexadecimal text")
	big := BigToHash(a.Big())
	vAssert(bytes.Equal(big[:], want), "hash through a big integer")
	txt, err := a.MarshalText()
	t := Hash{1, 2, 3}
	vAssert(err == nil && t.UnmarshalText(txt) == nil && bytes.Equal(t[:], want), "hash text round trip")
	c := a.Clone()
	vAssert(a.Equal(c) && a.SliceEqual(want), "copies are equal")
	c[0] ^= 1
	vAssert(bytes.Equal(a[:], want) && bytes.Equal(b, orig) && !a.Equal(c), "copies are independent and the input is kept")
	f := a.ForRLP()
	g := f.FromRLP()
	if bytes.Equal(want, EmptyHash[:]) {
		vAssert(g == nil, "the empty hash stands for nil")
	} else {
		vAssert(*f == a && *g == a, "hash through RLP")
	}
	reused := Hash{9, 8, 7, 6}
	reused.SetBytes(b)
	vAssert(bytes.Equal(reused[:], want), "SetBytes replaces the value")
	vReach("hash")
}

func VH_Seed() {
	b := vBytes(vxLen(SeedLength))
	orig := append([]byte{}, b...)
	want := vxRight(b, SeedLength)
	s := BytesToSeed(b)
	vAssert(bytes.Equal(s[:], want) && bytes.Equal(BytesToSeedP(b).Byte(), want) && bytes.Equal(s.Slice(), want), "seed holds the rightmost bytes")
	c := s.Clone()
	vAssert(s.Equal(c) && s.Equals(c), "copies are equal")
	c[0] ^= 1
	vAssert(bytes.Equal(s[:], want) && bytes.Equal(b, orig) && !s.Equal(c) && !s.Equals(c), "copies are independent and the input is kept")
	zero := true
	for _, x := range want {
		zero = vAnd(zero, x == 0)
	}
	vAssert(s.IsZero() == zero, "zero seed")
	reused := Seed{9, 8, 7, 6}
	reused.SetBytes(b)
	vAssert(bytes.Equal(reused[:], want), "SetBytes replaces the value")
	vReach("seed")
}

// Text of the wrong length or with a bad character is refused and leaves the value.
func VH_BadText() {
	n := []int{0, 1, 2, 39, 40, 41, 42, 43, 44}[vChoose(9)]
	txt := make([]byte, n)
	for i := range txt {
		txt[i] = '3'
	}
	if n > 1 {
		copy(txt, "0x")
	}
	ok := n == 42
	if n > 3 {
		i := 2 + vChoose(n-2)
		txt[i] = vU8()
		d := vOr(vAnd(txt[i] >= '0', txt[i] <= '9'), vOr(vAnd(txt[i] >= 'a', txt[i] <= 'f'), vAnd(txt[i] >= 'A', txt[i] <= 'F')))
		ok = vAnd(ok, d)
	}
	a := Address{7: 7}
	err := a.UnmarshalText(txt)
	vAssert((err == nil) == ok, "accepted exactly when well-formed")
	vAssert(err == nil || a == Address{7: 7}, "a refused text leaves the value")
	vAssert(n < 2 || IsHexAddress(string(txt)) == ok, "IsHexAddress")
	vReach("bad")
}

func VH_PubSlice() {
	n := []int{0, 1, 2, 65}[vChoose(4)]
	b := vBytes(n)
	a, err := AddressFromPubSlice(b)
	vAssert((err == nil) == (n > 0 && b[0] == 4), "only uncompressed public keys")
	if err == nil {
		h := Hash256(b[1:])
		vAssert(bytes.Equal(a[:], h[12:]), "address of a public key")
	}
	vReach("pub")
}
