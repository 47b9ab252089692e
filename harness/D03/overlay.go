//verif:pkg db

package db

// vxOver is the database under the overlay with one or two of the keys.
func vxOver(s *vxStore) Database {
	base := NewMemDB()
	v := []byte{vU8()}
	base.Put(vxCopy(s.keys[0]), v)
	s.put(0, v)
	if vChoose(2) == 1 {
		base.Put(vxCopy(s.keys[1]), []byte{})
		s.put(1, []byte{})
	}
	return base
}

func VH_Temporary() {
	s := vxNewStore(vxKeys(vBound("keys", 2, 3)))
	base := vxOver(s)
	under := s.clone()
	d := Temporary(base)
	d = Temporary(d)
	vxAgree(d, s, "fresh overlay")
	vxOps(d, s, vBound("operations", 2, 3), true)
	vxAgree(d, s, "overlay")
	vxAgree(base, under, "underlying database")
	// writes below show through where the overlay has nothing of its own
	d.Close()
	vxAgree(base, under, "underlying database after close")
	vReach("temporary")
}

func VH_ShowThrough() {
	s := vxNewStore(vxKeys(2))
	base := NewMemDB()
	d := Temporary(base)
	touched := vChoose(3)
	switch touched {
	case 0:
		d.Put(s.keys[0], []byte{1})
		s.put(0, []byte{1})
	case 1:
		d.Delete(s.keys[0])
	}
	v := vxVal()
	base.Put(s.keys[0], v)
	base.Put(s.keys[1], v)
	if touched == 2 {
		s.put(0, v)
	}
	s.put(1, v)
	vxAgree(d, s, "own entries hide, others show")
	vReach("show through")
}

func VH_ReadOnly() {
	s := vxNewStore(vxKeys(2))
	base := vxOver(s)
	d := ReadOnly(base)
	if vChoose(2) == 1 {
		d = ReadOnly(d)
	}
	b := base.NewBatch()
	b.Put(s.keys[0], []byte{1})
	b.Delete(s.keys[1])
	vAssert(d.Put(s.keys[0], vxVal()) == ErrReadOnly && d.Delete(s.keys[vChoose(2)]) == ErrReadOnly && d.Batch(b) == ErrReadOnly && d.Close() == ErrReadOnly, "every write is refused")
	vxAgree(d, s, "read only")
	vxAgree(base, s, "underlying database")
	i := vChoose(2)
	v := vxVal()
	base.Put(s.keys[i], v)
	s.put(i, v)
	vxAgree(d, s, "read only shows what is written below")
	t := Temporary(d)
	vAssert(t.Put(s.keys[0], []byte{9}) == nil, "an overlay over a read only database takes writes")
	vxAgree(base, s, "underlying database")
	s.put(0, []byte{9})
	vxAgree(t, s, "overlay over a read only database")
	vReach("read only")
}
