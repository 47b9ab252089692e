//verif:pkg .

package common

// vxLru is the specification: keys from the least to the most recently used.
type vxLru struct {
	cap  int
	keys []int
	vals map[int]uint64
}

func (l *vxLru) at(k int) int {
	for i, o := range l.keys {
		if o == k {
			return i
		}
	}
	return -1
}

func (l *vxLru) drop(i int) {
	delete(l.vals, l.keys[i])
	l.keys = append(append([]int{}, l.keys[:i]...), l.keys[i+1:]...)
}

func (l *vxLru) use(i int) {
	k := l.keys[i]
	l.keys = append(append(append([]int{}, l.keys[:i]...), l.keys[i+1:]...), k)
}

func VH_History() {
	vxHistory(vChoose(3)+1, vBound("operations", 3, 5))
}

func vxHistory(cap, max int) {
	m := NewLruMap(cap)
	l := &vxLru{cap: cap, vals: map[int]uint64{}}
	n := 1 + vChoose(max)
	if vChoose(2) == 1 { // from a full map
		for k := 0; k < cap; k++ {
			v := vU64()
			m.Add(k, v)
			l.keys = append(l.keys, k)
			l.vals[k] = v
		}
	}
	for i := 0; i < n; i++ {
		k := vChoose(cap + 1)
		at := l.at(k)
		switch vChoose(5) {
		case 0:
			v := vU64()
			vAssert(m.Add(k, v) == (at < 0), "Add stores exactly when the key is new")
			if at < 0 {
				if len(l.keys) == cap {
					l.drop(0)
				}
				l.keys = append(l.keys, k)
				l.vals[k] = v
			}
		case 1:
			v := m.Get(k)
			if at < 0 {
				vAssert(v == nil, "no value")
			} else {
				vAssert(v.(uint64) == l.vals[k], "the value last stored")
				l.use(at)
			}
		case 2:
			vAssert(m.Contains(k) == (at >= 0), "contains what was stored and not evicted")
		case 3:
			m.Remove(k)
			if at >= 0 {
				l.drop(at)
			}
		case 4:
			m.Clear()
			l.keys, l.vals = nil, map[int]uint64{}
		}
		vAssert(m.Map.Len() == len(l.keys) && m.Map.Len() <= cap, "never more than the capacity")
	}
	for k := 0; k <= cap; k++ {
		vAssert(m.Contains(k) == (l.at(k) >= 0), "only the least recently used is evicted")
	}
	for _, k := range append([]int{}, l.keys...) {
		vAssert(m.Get(k).(uint64) == l.vals[k], "each key keeps its own value")
	}
	vReach("history")
}

// Keys of symbolic value: equal keys are one entry.
func VH_Keys() {
	m := NewLruMap(2)
	a, b := vU32(), vU32()
	x, y := vU64(), vU64()
	vAssert(m.Add(a, x), "stored")
	vAssert(m.Add(b, y) == (a != b), "a second value for a key is refused")
	vAssert(m.Get(a).(uint64) == x, "the first value stays")
	if a != b {
		vAssert(m.Get(b).(uint64) == y, "other keys are apart")
	}
	m.Remove(a)
	vAssert(m.Get(a) == nil && m.Contains(b) == (a != b), "removed")
	vReach("keys")
}

func VH_Size() {
	n := vInt()
	vAssume(n <= 0 || n == 3)
	vAssert(vPanics(func() { NewLruMap(n) }) == (n <= 0), "a map needs room")
	vReach("size")
}
