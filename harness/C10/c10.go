//verif:pkg .

package common

// The map keeps for each chain what a model of two chains keeps.
func VH_History() {
	m := &LastBlockMap{M: make(map[ChainID]Height)}
	keys := [2]ChainID{ChainID(vU32()), ChainID(vU32())}
	vAssume(keys[0] != keys[1])
	var has [2]bool
	var val [2]Height
	n := 1 + vChoose(vBound("operations", 4, 6))
	for i := 0; i < n; i++ {
		k := vChoose(2)
		v := Height(vU64())
		if vChoose(2) == 0 {
			m.Set(keys[k], v)
			has[k], val[k] = true, v
		} else {
			ok := m.CAS(keys[k], v)
			vAssert(ok == (!has[k] || v > val[k]), "CAS succeeds exactly when the value is greater than the stored one")
			if ok {
				has[k], val[k] = true, v
			}
		}
		for j := 0; j < 2; j++ {
			h, exist := m.Get(keys[j])
			vAssert(exist == has[j] && (!exist || h == val[j]), "Get returns the last block stored")
		}
	}
	c := m.CopyMap()
	for j := 0; j < 2; j++ {
		h, exist := c[keys[j]]
		vAssert(exist == has[j] && (!exist || h == val[j]), "the copy is equal")
		c[keys[j]] = 12345
		h, exist = m.Get(keys[j])
		vAssert(exist == has[j] && (!exist || h == val[j]), "the copy is independent")
	}
	vReach("history")
}

func VH_NilMap() {
	m := &LastBlockMap{}
	_, ok := m.Get(ChainID(vU32()))
	vAssert(!ok && m.CopyMap() == nil, "an empty record answers nothing")
	vReach("nil")
}

func VH_Global() {
	id, h := ChainID(vU32()), Height(vU64())
	LastBlocks = LastBlockMap{M: make(map[ChainID]Height)}
	WatchHeight(id, h)
	g, ok := LastBlocks.Get(id)
	vAssert(ok && g == h, "WatchHeight records the height")
	vReach("global")
}
