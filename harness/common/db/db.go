//verif:pkg db

package db

import (
	"bytes"
	"errors"
)

var errVxDB = errors.New("vx: storage failed")

// vxKeys are n distinct keys.
func vxKeys(n int) [][]byte {
	ks := make([][]byte, n)
	for i := range ks {
		ks[i] = vBytes([]int{1, 2, 1, 0}[i])
		for _, o := range ks[:i] {
			vAssume(!bytes.Equal(o, ks[i]))
		}
	}
	return ks
}

// vxVal is a value, sometimes empty.
func vxVal() []byte {
	if vChoose(3) == 0 {
		return []byte{}
	}
	return []byte{vU8()}
}

// vxStore is the specification of a database over a few distinct keys.
type vxStore struct {
	keys [][]byte
	vals [][]byte
}

func vxNewStore(keys [][]byte) *vxStore { return &vxStore{keys, make([][]byte, len(keys))} }

func (s *vxStore) put(i int, v []byte) { s.vals[i] = append([]byte{}, v...) }
func (s *vxStore) del(i int)           { s.vals[i] = nil }
func (s *vxStore) clone() *vxStore {
	return &vxStore{s.keys, append([][]byte{}, s.vals...)}
}

// vxAgree asserts that d answers Get and Has as the specification.
func vxAgree(d Database, s *vxStore, what string) {
	for i, k := range s.keys {
		vxAgree1(d, s, i, k, what)
	}
}

func vxAgree1(d Database, s *vxStore, i int, k []byte, what string) {
	g, err := d.Get(k)
	vAssert(err == nil && (g != nil) == (s.vals[i] != nil) && bytes.Equal(g, s.vals[i]), what+": get")
	h, err := d.Has(k)
	vAssert(err == nil && h == (s.vals[i] != nil), what+": has")
	for j := range g {
		g[j] ^= 0xff
	}
}

// vxScribble changes a slice handed in before.
func vxScribble(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x55
		}
	}
}

func vxCopy(b []byte) []byte { return append([]byte{}, b...) }

// vxOps performs up to max puts, deletes and batches on d and s alike.
func vxOps(d Database, s *vxStore, max int, batches bool) {
	n := 1 + vChoose(max)
	for i := 0; i < n; i++ {
		vxOp(d, s, batches)
	}
}

func vxOp(d Database, s *vxStore, batches bool) {
	m := 2
	if batches {
		m = 3
	}
	switch vChoose(m) {
	case 0:
		j := vChoose(len(s.keys))
		k, v := vxCopy(s.keys[j]), vxVal()
		s.put(j, v)
		vAssert(d.Put(k, v) == nil, "put")
		vxScribble(k, v)
	case 1:
		j := vChoose(len(s.keys))
		k := vxCopy(s.keys[j])
		s.del(j)
		vAssert(d.Delete(k) == nil, "delete")
		vxScribble(k)
	case 2:
		vxBatch(d, s, 2)
	}
}

func vxBatch(d Database, s *vxStore, max int) {
	b := d.NewBatch()
	after := s.clone()
	n := vChoose(max + 1)
	for i := 0; i < n; i++ {
		j := vChoose(len(s.keys))
		k := vxCopy(s.keys[j])
		if vChoose(2) == 0 {
			v := vxVal()
			after.put(j, v)
			vAssert(b.Put(k, v) == nil, "batch put")
			vxScribble(v)
		} else {
			after.del(j)
			vAssert(b.Delete(k) == nil, "batch delete")
		}
		vxScribble(k)
		vAssert(b.Size() == i+1, "size of a batch")
	}
	vxAgree(d, s, "before the batch is written")
	vAssert(d.Batch(b) == nil, "batch written")
	*s = *after
}
