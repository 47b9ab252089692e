//verif:pkg .

package common

func vxAddr() (a Address) {
	for i := range a {
		a[i] = vU8()
	}
	return a
}

// vxChains is a legal list of n chain ids: distinct and not nil, symbolic when there are few.
func vxChains(n int, symbolic bool) []ChainID {
	ids := make([]ChainID, n)
	for i := range ids {
		if symbolic {
			ids[i] = ChainID(vU32())
			vAssume(ids[i] != NilChainID)
			for _, o := range ids[:i] {
				vAssume(o != ids[i])
			}
		} else {
			ids[i] = ChainID(10000 + 7*((i*37)%n))
			if n%37 == 0 {
				ids[i] = ChainID(10000 + 7*(n-i))
			}
		}
	}
	return ids
}

func vxBits(n int) int {
	b := 0
	for 1<<uint(b) < n {
		b++
	}
	return b
}

func vxCheck(info ShardInfo, ids []ChainID, local ChainID) {
	n := len(ids)
	vAssert(info.LocalID() == local, "local id")
	all := info.AllIDs()
	vAssert(len(all) == n, "every shard chain listed once")
	for _, id := range ids {
		p := info.Pos(id)
		vAssert(p >= 0 && p < n && all[p] == id, "every shard chain is found at its own position")
	}
	for i := 1; i < n; i++ {
		vAssert(all[i-1] < all[i], "shard chains in increasing order")
	}
	mask := int(info.GetMaskBits())
	vAssert(mask == vxBits(n), "enough mask bits and no more")
	addr := vxAddr()
	keep := addr
	to := info.ShardTo(addr)
	in := 0
	for _, id := range all {
		in += int(vIte(id == to, 1, 0))
	}
	vAssert(in == 1, "an address belongs to exactly one shard chain")
	vAssert(info.ShardTo(&addr) == to && addr == keep, "asking by address and by pointer agree")
	c := info.Clone()
	vAssert(c.ShardTo(addr) == to && c.LocalID() == local && len(c.AllIDs()) == n, "a copy assigns alike")
	// the leading bits decide
	lead := (int(addr[0])<<8 | int(addr[1])) >> uint(16-mask)
	if mask == 8 {
		vKnown("maskbits8", true)
	}
	vAssert(to == all[lead%n], "the shard follows from the leading bits of the address")
	for i := range c.AllIDs() {
		c.AllIDs()[i] = NilChainID
	}
	vAssert(info.ShardTo(addr) == to, "a copy is independent")
}

func VH_Few() {
	n := 1 + vChoose(vBound("symbolic shards", 3, 4))
	ids := vxChains(n, true)
	local := ids[0]
	parent := ChainStruct{ID: ChainID(vU32()), ParentID: MainChainID, Mode: Branch}
	for _, id := range ids {
		vAssume(parent.ID != id)
	}
	list := append([]ChainID{}, ids...)
	switch vChoose(3) {
	case 1:
		list = append(list, ids[n-1]) // a duplicate
	case 2:
		list = list[1:] // the current chain is added by itself
	}
	given := append([]ChainID{}, list...)
	info := NewShardInfo(parent, local, list)
	for i := range list {
		vAssert(list[i] == given[i], "the given list is left alone")
	}
	vxCheck(info, ids, local)
	vAssert(info.(AccountSharding).ParentID() == parent.ID, "parent")
	vReach("few")
}

func VH_Many() {
	sizes := []int{5, 8, 9, 16, 17, 64, 100, 128, 129, 200, 255, 256}
	n := sizes[vChoose(vBound("large shard counts", len(sizes), len(sizes)))]
	ids := vxChains(n, false)
	info := NewShardInfo(ChainStruct{ID: 1, ParentID: MainChainID, Mode: Branch}, ids[0], ids)
	vxCheck(info, ids, ids[0])
	vReach("many")
}

// A parent chain without shards keeps every address; the parent of a sharding is none of the shards.
func VH_None() {
	parent := ChainStruct{ID: ChainID(vU32()), ParentID: MainChainID, Mode: Branch}
	info := NewShardInfo(parent, NilChainID, nil)
	vAssert(len(info.AllIDs()) == 0 && info.LocalID() == parent.ID && info.GetMaskBits() == 0, "one chain")
	a := vxAddr()
	vAssert(info.ShardTo(a) == parent.ID && info.ShardTo(&a) == parent.ID && info.Clone().ShardTo(a) == parent.ID, "one chain takes every address")
	vAssert(info.ShardTo(nil) == NilChainID, "nothing belongs to no chain")
	info = NewShardInfo(ChainStruct{ID: 3}, 3, []ChainID{5, 4})
	vAssert(len(info.AllIDs()) == 2 && info.Pos(3) == -1 && info.Pos(ChainID(vU32())) < 2, "only shards have positions")
	x := ChainID(vU32())
	vAssume(x != 4 && x != 5)
	vAssert(info.Pos(x) == -1, "a chain that is no shard has no position")
	vAssert(vPanics(func() { NewAccountShards(parent, vxChains(257, false)) }), "a list above the limit is refused")
	vReach("none")
}

// An address shard contains an address exactly when the first Index+1 bits agree.
func VH_AddressShard() {
	a := vxAddr()
	n := vChoose(AddressLength+2) - 1
	if n < 0 {
		n = 0
	}
	v := vBytes(n)
	s := &AddressShard{Index: BitIndex(vChoose(AddressLength*8 + 2)), Value: v}
	idx := int(s.Index)
	vAssume(idx < 24 || idx > 150)
	valid := idx < AddressLength*8 && idx < n*8
	vAssert(s.IsValid() == valid, "valid exactly when value and address have the bits")
	if !valid {
		vAssert(!s.IsIn(a), "an invalid shard contains nothing")
		vReach("invalid")
		return
	}
	same := true
	for i := 0; i <= idx; i++ {
		same = vAnd(same, v[i/8]>>uint(7-i%8)&1 == a[i/8]>>uint(7-i%8)&1)
	}
	vAssert(s.IsIn(a) == same, "in the shard exactly when the leading bits agree")
	var none *AddressShard
	vAssert(!none.IsIn(a) && !none.IsValid(), "no shard contains nothing")
	vReach("address shard")
}

func VH_Bits() {
	n := vChoose(vBound("bytes", 4, 6))
	v := Bits(vBytes(n))
	i := vChoose(n*8 + 9)
	bit := false
	if i < n*8 {
		bit = v[i/8]>>uint(7-i%8)&1 == 1
	}
	vAssert(v.Bit(BitIndex(i)) == bit, "one bit")
	bs := v.Bits(i)
	want := i
	if want > n*8 {
		want = n * 8
	}
	vAssert(len(bs) == want, "as many bits as asked for and there are")
	for j := range bs {
		vAssert(bs[j] == (v[j/8]>>uint(7-j%8)&1 == 1), "the leading bits")
	}
	vAssert(len(v.Bits(-1)) == 0, "no bits")
	b, ok := v.Byte(i)
	vAssert(ok == (i < n) && (!ok || b == v[i]), "one byte")
	m := BitIndex(i).Mask(vU8())
	_ = m
	vReach("bits")
}

func VH_Mask() {
	i, b := vChoose(32), vU8()
	vAssert(BitIndex(i).BytePos() == i/8 && BitIndex(i).BitPos() == uint(i%8), "position of a bit")
	vAssert(BitIndex(i).Mask(b) == b>>uint(7-i%8)<<uint(7-i%8), "mask keeps the bits up to the index")
	vReach("mask")
}
