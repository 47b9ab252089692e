//verif:pkg db

package db

import "bytes"

// vxPrefixes are two prefixes neither of which begins the other.
func vxPrefixes() ([]byte, []byte) {
	p := vBytes(1 + vChoose(2))
	q := vBytes(1 + vChoose(2))
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	vAssume(!bytes.Equal(p[:n], q[:n]))
	return p, q
}

func vxAdapter(d Database, prefix []byte) Database {
	p := vxCopy(prefix)
	a := NewKeyPrefixedDataAdapter(d, p)
	vxScribble(p)
	switch vChoose(3) {
	case 1:
		a = a.Clone().(DatabasedAdapter)
	case 2:
		x, err := RebaseAdapter(NewKeyPrefixedDataAdapter(NewMemDB(), prefix), d)
		vAssert(err == nil, "rebased")
		a = x.(DatabasedAdapter)
	}
	return a.(Database)
}

func VH_Apart() {
	p, q := vxPrefixes()
	base := NewMemDB()
	keys := vxKeys(2)
	s, t := vxNewStore(keys), vxNewStore(keys)
	a := vxAdapter(base, p)
	b := NewKeyPrefixedDataAdapter(base, q).(Database)
	if vChoose(2) == 1 {
		b = NewKeyPrefixedDataAdapter(NewKeyPrefixedDataAdapter(base, q).(Database), []byte{vU8()}).(Database)
	}
	n := 1 + vChoose(vBound("operations", 2, 3))
	for i := 0; i < n; i++ {
		if vChoose(2) == 0 {
			vxOp(a, s, i == 0)
		} else {
			vxOp(b, t, i == 0)
		}
	}
	vxAgree(a, s, "first adapter")
	vxAgree(b, t, "second adapter")
	vReach("apart")
}

// The keys in the database are the prefixed ones.
func VH_Keys() {
	p := vBytes(vChoose(3))
	k := vBytes(vChoose(3))
	base := NewMemDB()
	a := NewKeyPrefixedDataAdapter(base, p)
	v := []byte{vU8()}
	vAssert(a.Save(k, v) == nil, "saved")
	all := append(vxCopy(p), k...)
	g, err := base.Get(all)
	vAssert(err == nil && bytes.Equal(g, v), "stored under prefix and key")
	g, err = a.Load(k)
	vAssert(err == nil && bytes.Equal(g, v), "loaded")
	vAssert(bytes.Equal(PrefixKey(p, k), all) && bytes.Equal(PrefixKey2(p, k, v), append(vxCopy(all), v...)), "joined keys")
	x := PrefixKey(p, k)
	vxScribble(x)
	vAssert(bytes.Equal(append(vxCopy(p), k...), all), "joining copies")
	vReach("keys")
}

func VH_KeyDatabase() {
	s := vxNewStore(vxKeys(2))
	base := NewMemDB()
	pre := vU8()
	d := &KeyDatabase{database: base, keyFunc: func(k []byte) []byte { return append([]byte{pre}, k...) }}
	vxOps(d, s, vBound("operations", 2, 3), true)
	vxAgree(d, s, "converted keys")
	for i, k := range s.keys {
		vxAgree1(base, s, i, append([]byte{pre}, k...), "stored under converted keys")
	}
	vReach("key database")
}
