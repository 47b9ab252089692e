//verif:pkg db

package db

func VH_MemBatch() {
	s := vxNewStore(vxKeys(2))
	d := NewMemDB()
	if vChoose(2) == 1 {
		d.Put(vxCopy(s.keys[0]), []byte{7})
		s.put(0, []byte{7})
	}
	vxBatch(d, s, vBound("batch entries", 4, 5))
	vxAgree(d, s, "after the batch")
	vReach("mem batch")
}

func VH_TemporaryBatch() {
	s := vxNewStore(vxKeys(2))
	base := NewMemDB()
	base.Put(vxCopy(s.keys[0]), []byte{7})
	s.put(0, []byte{7})
	d := Temporary(base)
	if vChoose(2) == 1 {
		d.Delete(s.keys[0])
		s.del(0)
	}
	vxBatch(d, s, vBound("overlay batch entries", 3, 4))
	vxAgree(d, s, "after the batch")
	vReach("temporary batch")
}

// Two batches in a row, and one batch written twice.
func VH_Sequence() {
	s := vxNewStore(vxKeys(2))
	d := NewMemDB()
	vxBatch(d, s, 2)
	b := d.NewBatch()
	v := vxVal()
	vAssert(b.Put(s.keys[0], v) == nil && b.Delete(s.keys[1]) == nil, "added")
	vAssert(d.Batch(b) == nil, "written")
	s.put(0, v)
	s.del(1)
	vxAgree(d, s, "second batch")
	d.Put(s.keys[1], []byte{1})
	vAssert(d.Batch(b) == nil, "written again")
	vxAgree(d, s, "a batch written again has the same effect")
	vAssert(d.NewBatch().Size() == 0, "a new batch is empty")
	vReach("sequence")
}

// What cannot be stored is reported, by the batch or by the commit.
func VH_Refused() {
	d := NewMemDB()
	b := d.NewBatch()
	e1 := b.Put([]byte{1}, []byte{2})
	e2 := b.Put([]byte{3}, nil)
	e3 := b.Put(nil, []byte{3})
	e4 := d.Batch(b)
	has, _ := d.Has([]byte{3})
	vAssert(e1 == nil && (has || e2 != nil || e3 != nil || e4 != nil), "a refused put is reported")
	vReach("refused")
}
