//verif:pkg trie

package trie

import "github.com/ThinkiumGroup/go-common/db"

func vxLen() int { return vChoose(vBound("key bytes", 2, 3) + 1) }

func VH_Map() {
	t := vxTrie(nil, db.NewMemDB())
	var m vxModel
	n := vBound("operations", 3, 4)
	for i := 0; i < n; i++ {
		k := vxKey(vxLen())
		orig := append([]byte{}, k...)
		was := m.get(k)
		if i > 0 && vChoose(2) == 1 {
			changed, old := t.Delete(k)
			vAssert(changed == (was != nil), "Delete reports whether the key was there")
			if was != nil {
				vAssert(old == interface{}(was.v), "Delete returns the removed value")
			} else {
				vAssert(old == nil, "Delete of an absent key returns no value")
			}
			m.del(k)
		} else {
			v := vU32()
			ch := t.Put(k, v)
			if was == nil {
				vAssert(ch, "Put of a new key reports a change")
			}
			m.put(k, v)
		}
		vAssert(vxSame(k, orig), "the key is not modified")
		vAssert(t.Count() == m.count(), "the count is the number of live keys")
		vAssert(t.IsEmpty() == (m.count() == 0), "empty exactly without keys")
	}
	for _, e := range m.e {
		vxAgree(t, &m, e.k, "known key")
	}
	vxAgree(t, &m, vxKey(vxLen()), "any key")
	vReach("map")
}
