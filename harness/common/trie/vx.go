//verif:pkg trie

package trie

import (
	"bytes"
	"errors"
	"io"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

var vxErrDecode = errors.New("vx: short value")

func vxEncode(o interface{}, w io.Writer) error {
	v, ok := o.(uint32)
	if !ok {
		return vxErrDecode
	}
	_, err := w.Write([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	return err
}

func vxDecode(r io.Reader) (interface{}, error) {
	b := make([]byte, 4)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]), nil
}

func vxHasher(_ interface{}, b []byte) ([]byte, error) { return common.Hash256s(b) }

// vxTrieDB is one database holding the nodes and the values of a trie.
func vxAdapters(d db.Database) (db.DataAdapter, db.DataAdapter) {
	return db.NewKeyPrefixedDataAdapter(d, []byte("n")), db.NewKeyPrefixedDataAdapter(d, []byte("v"))
}

func vxTrie(root []byte, d db.Database) *Trie {
	na, va := vxAdapters(d)
	return NewTrieWithValueFuncs(root, na, va, vxEncode, vxDecode, vxHasher)
}

// vxTiny makes all keys come from two one-byte keys and the empty key.
var vxTiny bool

// vxKey is a key of n bytes whose nibbles come from a small alphabet.
func vxKey(n int) []byte {
	k := vBytes(n)
	for i, x := range k {
		hi, lo := x>>4, x&15
		if vxTiny {
			vAssume(vAnd(vOr(hi == 0, hi == 9), lo == 1))
		} else if i == 0 {
			vAssume(vAnd(vOr(hi == 0, hi == 9, hi == 15), vOr(lo == 1, lo == 8)))
		} else {
			vAssume(vAnd(vOr(hi == 0, hi == 9), lo == 1))
		}
	}
	return k
}

type vxEntry struct {
	k    []byte
	v    uint32
	live bool
}

// vxModel is the plain map a trie is compared with.
type vxModel struct{ e []*vxEntry }

func vxSame(a, b []byte) bool { return bytes.Equal(a, b) }

func (m *vxModel) get(k []byte) *vxEntry {
	for _, e := range m.e {
		if vxSame(e.k, k) {
			if e.live {
				return e
			}
			return nil
		}
	}
	return nil
}

func (m *vxModel) put(k []byte, v uint32) {
	for _, e := range m.e {
		if vxSame(e.k, k) {
			e.v, e.live = v, true
			return
		}
	}
	m.e = append(m.e, &vxEntry{append([]byte{}, k...), v, true})
}

func (m *vxModel) del(k []byte) {
	for _, e := range m.e {
		if vxSame(e.k, k) {
			e.live = false
			return
		}
	}
}

func (m *vxModel) count() int {
	n := 0
	for _, e := range m.e {
		if e.live {
			n++
		}
	}
	return n
}

func vxGet(t interface {
	Get([]byte) (interface{}, bool)
}, k []byte) (uint32, bool) {
	v, ok := t.Get(k)
	if !ok {
		return 0, false
	}
	x, isU := v.(uint32)
	vAssert(isU, "a found value has the type that was stored")
	return x, true
}

func vxAgree(t interface {
	Get([]byte) (interface{}, bool)
}, m *vxModel, k []byte, what string) {
	v, ok := vxGet(t, k)
	e := m.get(k)
	vAssert(ok == (e != nil), what+": presence")
	if ok {
		vAssert(v == e.v, what+": value")
	}
}

func vxKeyN(max int) []byte { return vxKey(vChoose(max + 1)) }

// vxStep puts or deletes one arbitrary key in the trie and the model.
func vxStep(t interface {
	Put([]byte, interface{}) bool
	Delete([]byte) (bool, interface{})
}, m *vxModel, max int, del bool) {
	k := vxKeyN(max)
	if del && vChoose(2) == 1 {
		t.Delete(k)
		m.del(k)
		return
	}
	v := vU32()
	t.Put(k, v)
	m.put(k, v)
}

func vxRoot(t interface{ HashValue() ([]byte, error) }) []byte {
	h, err := t.HashValue()
	vAssert(err == nil, "HashValue succeeds")
	return append([]byte{}, h...)
}

// vxBuild makes a trie with the live content, never committed, in an order
// that starts at from.
func vxBuild(m *vxModel, from int, rev bool) *Trie {
	t := vxTrie(nil, db.NewMemDB())
	n := len(m.e)
	for i := 0; i < n; i++ {
		j := (from + i) % n
		if rev {
			j = (from + n - i) % n
		}
		if e := m.e[j]; e.live {
			t.Put(e.k, e.v)
		}
	}
	return t
}

// vxSameContent compares the live entries of two models.
func vxSameContent(a, b *vxModel) bool {
	if a.count() != b.count() {
		return false
	}
	for _, e := range a.e {
		if e.live {
			o := b.get(e.k)
			if o == nil || o.v != e.v {
				return false
			}
		}
	}
	return true
}

func (m *vxModel) clone() *vxModel {
	c := &vxModel{}
	for _, e := range m.e {
		c.e = append(c.e, &vxEntry{e.k, e.v, e.live})
	}
	return c
}

func vxAgreeAll(t interface {
	Get([]byte) (interface{}, bool)
}, m *vxModel, what string) {
	for _, e := range m.e {
		vxAgree(t, m, e.k, what)
	}
}
