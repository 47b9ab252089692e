//verif:pkg .

package common

import (
	"bytes"
	"math/big"
)

func VH_Classes() {
	x := vU32()
	id := ChainID(x)
	vAssert(id.IsNil() == (id == NilChainID) && id.IsNil() == (x == 1<<20), "nil")
	vAssert(id.IsReserved() == (x < 1<<20), "reserved")
	vAssert(id.IsUserDefined() == (x > 1<<20), "user defined")
	vAssert(id.IsMain() == (x == 0) && id.IsMain() == (id == MainChainID), "main")
	vAssert(id.IsSub() == (!id.IsNil() && !id.IsMain()), "sub chain")
	n := 0
	for _, b := range []bool{id.IsNil(), id.IsReserved(), id.IsUserDefined()} {
		n += int(vIte(b, 1, 0))
	}
	vAssert(n == 1, "nil, reserved and user defined partition the ids")
	vAssert(!id.IsMain() || id.IsReserved(), "the main chain is reserved")
	vReach("classes")
}

func VH_Forms() {
	x := vU32()
	id := ChainID(x)
	b := id.Bytes()
	vAssert(len(b) == 4 && b[0] == byte(x>>24) && b[1] == byte(x>>16) && b[2] == byte(x>>8) && b[3] == byte(x), "big endian bytes")
	vAssert(BytesToChainID(b) == id && id.FromFormalize(id.Formalize()) == id && bytes.Equal(id.Formalize(), b), "bytes and back")
	vAssert(BytesToChainID(append(vBytes(vChoose(3)), b...)) == id, "leading bytes beyond four are cropped")
	var c ChainID
	g, ok := c.FromBig(new(big.Int).SetUint64(uint64(x)))
	vAssert(ok && g == id, "big number and back")
	g, ok = c.FromBig(new(big.Int).SetBytes(b))
	vAssert(ok && g == id, "bytes as a number")
	h, err := id.HashValue()
	vAssert(err == nil && bytes.Equal(h, SystemHash256(b)), "the hash is the hash of the bytes")
	vAssert(bytes.Equal((&ChainInfos{ChainStruct: ChainStruct{ID: id}}).Key(), b), "key of a chain")
	vReach("forms")
}

func VH_ShortBytes() {
	b := vBytes(vChoose(5))
	want := uint32(0)
	for _, c := range b {
		want = want<<8 | uint32(c)
	}
	vAssert(uint32(BytesToChainID(b)) == want, "short bytes are a number")
	vReach("short")
}

func VH_Big() {
	var c ChainID
	_, ok := c.FromBig(nil)
	vAssert(!ok, "no number")
	z := new(big.Int).SetBytes(vBytes(vChoose(7)))
	if vBool() {
		z.Neg(z)
	}
	id, ok := c.FromBig(z)
	fits := z.Sign() >= 0 && z.BitLen() <= 32
	vAssert(ok == fits, "refused exactly when out of range")
	if ok {
		vAssert(new(big.Int).SetUint64(uint64(id)).Cmp(z) == 0, "same number")
	} else {
		vAssert(id == NilChainID, "a refused number is no chain")
	}
	vReach("big")
}

func VH_Order() {
	a, b, c := ChainID(vU32()), ChainID(vU32()), ChainID(vU32())
	key := func(x ChainID) uint64 {
		return vIte(x == NilChainID, 0, uint64(x)+1)
	}
	want := 0
	if key(a) < key(b) {
		want = -1
	} else if key(a) > key(b) {
		want = 1
	}
	vAssert(a.Compare(b) == want, "nil first, then by number")
	vAssert(b.Compare(a) == -want, "antisymmetric")
	if a.Compare(b) <= 0 && b.Compare(c) <= 0 {
		vAssert(a.Compare(c) <= 0, "transitive")
	}
	l := ChainIDs{a, b}
	vAssert(l.Less(0, 1) == (want < 0) && l.Len() == 2, "lists order alike")
	vReach("order")
}

func VH_Lists() {
	n := vChoose(4)
	l := make(ChainIDs, n)
	for i := range l {
		l[i] = ChainID(vU32())
	}
	c := l.Clone()
	vAssert(c.Equal(l) && l.Equal(c), "a copy is equal")
	if n > 0 {
		i := vChoose(n)
		x := ChainID(vU32())
		same := x == l[i]
		c[i] = x
		vAssert(l.Equal(c) == same, "equal exactly when all ids are")
		vAssert(!l.Equal(l[:n-1]) && !l[:n-1].Equal(l), "lengths differ")
	}
	vAssert(ChainIDs(nil).Clone() == nil && !ChainIDs(nil).Equal(l) && ChainIDs(nil).Equal(nil), "no list")
	vReach("lists")
}

// A chain structure made from ids is valid exactly when the documented tree allows it.
func VH_Struct() {
	StandAlone = false
	id, parent := ChainID(vU32()), ChainID(vU32())
	s, err := NewChainStruct(id, parent)
	if id == NilChainID || (parent == NilChainID && id != MainChainID) {
		vAssert(err != nil && s == nil, "no chain without an id, only the main chain without a parent")
		vReach("refused")
		return
	}
	vAssert(err == nil && s.ID == id && s.ParentID == parent, "made")
	vAssert(s.Clone() == *s, "a copy is equal")
	switch {
	case parent == NilChainID:
		vAssert(s.Mode == Root && s.Validate() == nil, "the main chain is the root")
	case id == MainChainID:
		vAssert(s.Validate() != nil, "the main chain has no parent")
	case parent == MainChainID:
		vAssert(s.Mode == Branch && s.Validate() == nil, "children of the main chain are branches")
	default:
		vAssert(s.Mode == Shard && s.Validate() == nil, "the others are shards")
	}
	s.Mode = ChainMode(vU8())
	ok := false
	switch s.Mode {
	case Root:
		ok = id == MainChainID && parent == NilChainID
	case Branch:
		ok = id != MainChainID && parent == MainChainID
	case Shard:
		ok = id != MainChainID && parent != MainChainID && parent != NilChainID
	}
	vAssert((s.Validate() == nil) == ok, "valid exactly when mode and ids agree")
	vReach("struct")
}
