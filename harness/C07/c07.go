//verif:pkg .

package common

import "bytes"

// vxIds makes n ids, equal or different, that differ in two bytes.
func vxIds(n int) []NodeID {
	r := make([]NodeID, n)
	for i := range r {
		r[i][0] = vU8()
		r[i][63] = vU8()
	}
	return r
}

func vxHas(l []NodeID, id NodeID) bool {
	for i := range l {
		if l[i] == id {
			return true
		}
	}
	return false
}

func vxWithout(l []NodeID, id NodeID) []NodeID {
	var r []NodeID
	for i := range l {
		if l[i] != id {
			r = append(r, l[i])
		}
	}
	return r
}

func vxSetIs(s *NodeIDSet, m []NodeID, asked []NodeID) {
	vAssert(s.Len() == len(m), "the size is the number of different ids")
	for i := range m {
		k, ok := s.GetIndex(&m[i])
		vAssert(ok && k >= 0 && k < s.Len(), "a stored id has an index below the size")
		p, ok := s.Get(k)
		vAssert(ok && *p == m[i], "the id is found under its index")
	}
	for i := range asked {
		_, ok := s.GetIndex(&asked[i])
		vAssert(ok == vxHas(m, asked[i]), "only stored ids have an index")
	}
	_, ok := s.Get(s.Len())
	_, ok2 := s.Get(-1)
	_, ok3 := s.GetIndex(nil)
	vAssert(!ok && !ok2 && !ok3, "no id outside the indexes")
}

func VH_Set() {
	n := vBound("operations", 4, 5)
	ids := vxIds(vBound("ids", 3, 4))
	s := NewNodeIDSet()
	var m []NodeID
	for i := 0; i < n; i++ {
		id := ids[vChoose(len(ids))]
		switch vChoose(3) {
		case 0:
			added := s.Put(id.New())
			vAssert(added == !vxHas(m, id), "Put tells whether the id is new")
			if added {
				m = append(m, id)
			}
		case 1:
			s.Delete(&id)
			m = vxWithout(m, id)
		default:
			n = 0
		}
	}
	vxSetIs(s, m, ids)
	vReach("set")
}

func VH_SetList() {
	ids := vxIds(1 + vChoose(vBound("ids", 3, 4)))
	ps := make([]*NodeID, len(ids))
	var m []NodeID
	for i := range ids {
		ps[i] = ids[i].New()
		if !vxHas(m, ids[i]) {
			m = append(m, ids[i])
		}
	}
	s := NewNodeIDSet(ps...)
	vxSetIs(s, m, ids)
	if vChoose(2) == 1 {
		e := vxIds(1)[0]
		if s.Put(&e) {
			m = append(m, e)
		}
	}
	l := s.GetNodeIDs(0)
	vAssert(len(l) == len(m), "the list has every id once")
	for i := range l {
		vAssert(vxHas(m, l[i]) && (i == 0 || bytes.Compare(l[i-1][:], l[i][:]) < 0), "the list is sorted and holds only stored ids")
	}
	vxSetIs(s, m, ids)
	vReach("list")
}

func VH_Nil() {
	s := NewNodeIDSet()
	vAssert(!s.Put(nil), "nil is not added")
	s.Delete(nil)
	id := NodeID{1}
	s.Delete(&id)
	vAssert(s.Len() == 0 && len(s.GetNodeIDs(0)) == 0, "empty")
	vReach("nil")
}

// The list operations are compared as sets.
func VH_Lists() {
	a, b := NodeIDs(vxIds(vChoose(vBound("first list", 3, 4)+1))), NodeIDs(vxIds(vChoose(vBound("second list", 2, 4)+1)))
	oa, ob := a.Clone(), b.Clone()
	u, r := a.Union(b), a.Remove(b)
	q := NodeID{}
	q[0], q[63] = vU8(), vU8()
	vAssert(vxHas(u, q) == (vxHas(oa, q) || vxHas(ob, q)), "union")
	vAssert(vxHas(r, q) == (vxHas(oa, q) && !vxHas(ob, q)), "difference")
	vAssert(a.Contains(q) == vxHas(oa, q) && a.IsIn(q) == vxHas(oa, q), "membership")
	_, inMap := a.ToMap()[q]
	vAssert(inMap == vxHas(oa, q), "map of the list")
	for i := range u {
		vAssert(!vxHas(u[:i], u[i]), "no id twice in a union")
	}
	for i := range r {
		vAssert(!vxHas(r[:i], r[i]), "no id twice in a difference")
	}
	vAssert(a.Equal(oa) && b.Equal(ob), "the lists are kept")
	vReach("lists")
}

type vxIdentified struct {
	NodeIdentifier
	id NodeID
}

func (i vxIdentified) NodeID() NodeID { return i.id }

// Lists of ids made from other forms hold the same ids in the same order.
func VH_Made() {
	ids := vxIds(vChoose(vBound("ids", 3, 4) + 1))
	var bss [][]byte
	var texts []string
	var idf []NodeIdentifier
	var hashes []Hash
	var byHex NodeIDs
	dup := false
	for i := range ids {
		bss = append(bss, ids[i].Bytes())
		texts = append(texts, hexOf(ids[i]))
		if vChoose(2) == 1 {
			idf = append(idf, nil)
		}
		idf = append(idf, vxIdentified{id: ids[i]})
		hashes = append(hashes, ids[i].Hash())
		vAssert(byHex.AppendByHex(texts[i]) == nil, "appended")
		dup = dup || vxHas(ids[:i], ids[i])
	}
	same := func(l NodeIDs) bool {
		if len(l) != len(ids) {
			return false
		}
		for i := range l {
			if l[i] != ids[i] {
				return false
			}
		}
		return true
	}
	vAssert(same(byHex), "from hexadecimal text one by one")
	vAssert(same(IdentifiersToNodeIDs(idf)), "from objects")
	l, err := StringsToNodeIDs(texts)
	vAssert(err == nil && same(l), "from texts")
	m, err := ByteSlicesToNodeIDs(bss)
	vAssert((err != nil) == dup, "duplicates are refused")
	if !dup {
		vAssert(same(m), "from bytes")
	}
	bs := NodeIDs(ids).ToBytesSlice()
	vAssert(len(bs) == len(ids), "to bytes")
	for i := range bs {
		vAssert(bytes.Equal(bs[i], ids[i][:]), "to bytes, in order")
		bs[i][0] ^= 1
	}
	vAssert(same(byHex), "the bytes are copies")
	if len(ids) > 0 {
		k := vConc(vChoose(len(ids)))
		bad := [][]byte{nil, bss[k][1:], append([]byte{0}, bss[k]...)}[vChoose(3)]
		old := bss[k]
		bss[k] = bad
		_, err = ByteSlicesToNodeIDs(bss)
		vAssert(err != nil, "bytes of another length are refused")
		bss[k] = old
		texts[k] = texts[k][1:]
		_, err = StringsToNodeIDs(texts)
		vAssert(err != nil && byHex.AppendByHex(texts[k]) != nil && same(byHex), "half bytes are refused")
	}
	q := NodeID{}
	q[0], q[63] = vU8(), vU8()
	vAssert(IsNodeIDIn(hashes, q) == vxHas(ids, q), "found by hash")
	vReach("made")
}

func hexOf(id NodeID) string {
	const d = "0123456789abcdef"
	var b []byte
	for _, x := range id {
		b = append(b, d[x>>4], d[x&15])
	}
	return string(b)
}
