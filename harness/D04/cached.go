//verif:pkg db

package db

import lru "github.com/hashicorp/golang-lru"

func vxCached(base Database, size int) *cachedDB {
	c, err := lru.New(size)
	if err != nil {
		panic(err)
	}
	return &cachedDB{cacheSize: size, baseDB: base, cache: c}
}

func VH_History() {
	s := vxNewStore(vxKeys(2))
	base := NewMemDB()
	base.Put(vxCopy(s.keys[0]), []byte{7})
	s.put(0, []byte{7})
	d := vxCached(base, 1+vChoose(2))
	n := 1 + vChoose(vBound("operations", 3, 5))
	for i := 0; i < n; i++ {
		switch vChoose(3) {
		case 0:
			vxOp(d, s, false)
		case 1:
			j := vChoose(2)
			vxAgree1(d, s, j, s.keys[j], "cached")
		case 2:
			b := d.NewBatch()
			j := vChoose(2)
			if vChoose(2) == 0 {
				v := vxVal()
				b.Put(s.keys[j], v)
				s.put(j, v)
			} else {
				b.Delete(s.keys[j])
				s.del(j)
			}
			vAssert(b.Size() == 1 && d.Batch(b) == nil, "batch")
		}
	}
	vxAgree(base, s, "underlying")
	vxAgree(d, s, "cached at the end")
	vxAgree(d, s, "cached at the end, again")
	vReach("history")
}

type vxBroken struct {
	Database
	fail bool
}

func (b *vxBroken) Get(k []byte) ([]byte, error) {
	if b.fail {
		return nil, errVxDB
	}
	return b.Database.Get(k)
}

func (b *vxBroken) Has(k []byte) (bool, error) {
	if b.fail {
		return false, errVxDB
	}
	return b.Database.Has(k)
}

func (b *vxBroken) Put(k, v []byte) error {
	if b.fail {
		return errVxDB
	}
	return b.Database.Put(k, v)
}

func (b *vxBroken) Delete(k []byte) error {
	if b.fail {
		return errVxDB
	}
	return b.Database.Delete(k)
}

func (b *vxBroken) Batch(x Batch) error {
	if b.fail {
		return errVxDB
	}
	return b.Database.Batch(x)
}

// A failure below is reported and changes no answer.
func VH_Failure() {
	s := vxNewStore(vxKeys(2))
	base := &vxBroken{Database: NewMemDB()}
	d := vxCached(base, 2)
	vxOps(d, s, 1, false)
	if vChoose(2) == 1 {
		vxAgree(d, s, "before")
	}
	base.fail = true
	j := vChoose(2)
	var err error
	switch vChoose(3) {
	case 0:
		err = d.Put(s.keys[j], []byte{1, 2})
	case 1:
		err = d.Delete(s.keys[j])
	case 2:
		b := d.NewBatch()
		b.Put(s.keys[j], []byte{1, 2})
		err = d.Batch(b)
	}
	vAssert(err == errVxDB, "reported")
	base.fail = false
	vxAgree(d, s, "after a failed write")
	vReach("failure")
}

func VH_Replace() {
	s, s2 := vxNewStore(vxKeys(2)), (*vxStore)(nil)
	s2 = vxNewStore(s.keys)
	a, b := NewMemDB(), NewMemDB()
	vxOps(a, s, 1, false)
	vxOps(b, s2, 1, false)
	d := vxCached(a, 2)
	vxAgree(d, s, "first")
	_, old := d.Replace("x", b)
	vAssert(old == a, "the old database is returned")
	vxAgree(d, s2, "second")
	vxAgree(a, s, "the old database is left alone")
	vReach("replace")
}
