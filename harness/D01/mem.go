//verif:pkg db

package db

import "bytes"

func VH_History() {
	s := vxNewStore(vxKeys(3))
	d := NewMemDB()
	vxAgree(d, s, "empty database")
	vxOps(d, s, vBound("operations", 4, 5), false)
	vxAgree(d, s, "after operations")
	vxAgree(d, s, "after changing what was returned")
	other := vBytes(1)
	for _, k := range s.keys {
		vAssume(!bytes.Equal(k, other))
	}
	g, err := d.Get(other)
	vAssert(g == nil && err == nil, "another key is absent")
	vAssert(d.Close() == nil, "closed")
	vReach("history")
}

func VH_Nil() {
	s := vxNewStore(vxKeys(2))
	d := NewMemDB()
	vxOps(d, s, 1, false)
	vAssert(d.Put(nil, []byte{1}) != nil && d.Put([]byte{vU8()}, nil) != nil, "nothing is not a key or value")
	vxAgree(d, s, "after refused puts")
	_, err := GetNilError(d, s.keys[0])
	vAssert((err == nil) == (len(s.vals[0]) > 0), "GetNilError reports an absent or empty value")
	vReach("nil")
}

func VH_CopySlice() {
	b := vBytes(vChoose(4))
	c := CopySlice(b)
	vAssert(bytes.Equal(b, c) && c != nil && CopySlice(nil) == nil, "equal copy")
	for i := range c {
		c[i]++
		vAssert(b[i] == c[i]-1, "independent copy")
	}
	vReach("copy")
}
