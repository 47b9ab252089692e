//verif:pkg trie

package trie

import (
	"bytes"

	"github.com/ThinkiumGroup/go-common"
	"github.com/ThinkiumGroup/go-common/db"
)

type vxSub struct {
	k []byte
	t *Trie
}

// vxSubs is a map of tries in the order of their keys.
type vxSubs []vxSub

func (m vxSubs) find(k []byte) int {
	for i := range m {
		if bytes.Equal(m[i].k, k) {
			return i
		}
	}
	return -1
}

func (m vxSubs) put(k []byte, t *Trie) vxSubs {
	if i := m.find(k); i >= 0 {
		m[i].t = t
		return m
	}
	m = append(m, vxSub{append([]byte{}, k...), t})
	for i := len(m) - 1; i > 0 && bytes.Compare(m[i].k, m[i-1].k) < 0; i-- {
		m[i], m[i-1] = m[i-1], m[i]
	}
	return m
}

func (m vxSubs) del(k []byte) vxSubs {
	i := m.find(k)
	if i < 0 {
		return m
	}
	var r vxSubs
	r = append(r, m[:i]...)
	return append(r, m[i+1:]...)
}

// vxSubKey is a short key, possibly a prefix of another one, and empty.
func vxSubKey() []byte {
	k := vBytes(vChoose(3))
	for i, x := range k {
		if i == 0 {
			vAssume(vOr(x == 1, x == 200))
		} else {
			vAssume(x == 7)
		}
	}
	return k
}

func vxContent(d db.Database, seed uint32) *Trie {
	t := vxTrie(nil, d)
	t.Put([]byte{1}, seed)
	if seed%2 == 1 {
		t.Put([]byte{0x10, 2}, seed+7)
	}
	return t
}

func vxTries(d db.Database) []*Trie {
	return []*Trie{vxContent(d, 1), vxContent(d, 2), vxContent(d, 3)}
}

func vxIsMap(c *SmallCombinedTrie, m vxSubs) {
	keys := c.Keys()
	vAssert(len(keys) == len(m), "number of keys")
	it := c.ValueIterator()
	for i := range m {
		vAssert(bytes.Equal([]byte(keys[i]), m[i].k), "keys in order")
		v, ok := c.Get(m[i].k)
		vAssert(ok && v == m[i].t, "the trie under the key")
		vAssert(it.Next(), "iterated")
		k, x := it.Current()
		vAssert(bytes.Equal(k, m[i].k) && x == m[i].t, "key and trie in order")
	}
	vAssert(!it.Next(), "no more keys")
	probe := vxSubKey()
	v, ok := c.Get(probe)
	i := m.find(probe)
	vAssert(ok == (i >= 0) && (i < 0 || v == m[i].t), "any key")
}

func vxCombined(d db.Database) *SmallCombinedTrie {
	return NewCombinedTrie(db.NewKeyPrefixedDataAdapter(d, []byte("c")))
}

// vxSomeMap is a combined trie after any few steps, and the map it is to be.
func vxSomeMap(d db.Database, steps int) (*SmallCombinedTrie, vxSubs) {
	c := vxCombined(d)
	var m vxSubs
	tries := vxTries(d)
	for i := 0; i < steps; i++ {
		k := vxSubKey()
		if i > 0 && vChoose(3) == 0 {
			at := m.find(k)
			changed, old := c.Delete(k)
			vAssert(changed == (at >= 0), "deleted exactly if it was there")
			vAssert(at < 0 || old == m[at].t, "the trie that was there")
			m = m.del(k)
		} else {
			t := tries[i%len(tries)]
			vAssert(c.Put(k, t), "put")
			m = m.put(k, t)
		}
	}
	return c, m
}

func VH_Map() {
	d := db.NewMemDB()
	c, m := vxSomeMap(d, vBound("steps", 3, 4))
	vxIsMap(c, m)
	vAssert(!c.Put(nil, vxTries(d)[0]) && !c.Put([]byte{1}, uint32(1)), "neither no key nor another value")
	_, ok := c.Get(nil)
	vAssert(!ok, "no key")
	vxIsMap(c, m)
	vReach("map")
}

// The root hash is that of the tries in the order of their keys, whatever was
// there before.
func VH_Root() {
	d := db.NewMemDB()
	c, m := vxSomeMap(d, vBound("steps before the root", 3, 4))
	root := vxRoot(c)
	if len(m) == 0 {
		vAssert(bytes.Equal(root, common.NilHashSlice), "nothing has the nil hash")
		return
	}
	var hs [][]byte
	e := vxCombined(d)
	for i := len(m) - 1; i >= 0; i-- {
		hs = append([][]byte{vxRoot(m[i].t)}, hs...)
		vAssert(e.Put(m[i].k, m[i].t), "put")
	}
	want, err := common.MerkleHashComplete(hs, 0, nil)
	vAssert(err == nil && bytes.Equal(root, want), "the root is that of the content")
	vAssert(bytes.Equal(vxRoot(e), root), "in whatever order it was put")
	vAssert(bytes.Equal(vxRoot(c), root), "and hashing does not change it")
	vReach("root")
}

// Committed and opened again.
func VH_Open() {
	d := db.NewMemDB()
	c, m := vxSomeMap(d, vBound("steps before the commit", 3, 4))
	if len(m) == 0 {
		return
	}
	var before vxSubs
	for _, s := range m {
		before = append(before, s)
	}
	root := vxRoot(c)
	vAssert(c.IsDirty(), "dirty")
	vAssert(c.Commit() == nil, "committed")
	vAssert(!c.IsDirty(), "clean")
	vxIsMap(c, before)
	vAssert(bytes.Equal(vxRoot(c), root), "the root is kept")

	e := vxCombined(d)
	na, va := vxAdapters(d)
	vAssert(e.InitTrie(root, na, va, vxEncode, vxDecode, vxHasher) == nil, "opened")
	vAssert(bytes.Equal(vxRoot(e), root), "with the root")
	keys := e.Keys()
	vAssert(len(keys) == len(m), "number of keys")
	for i := range m {
		vAssert(bytes.Equal([]byte(keys[i]), m[i].k), "keys in order")
		v, ok := e.Get(m[i].k)
		vAssert(ok, "the trie under the key")
		t := v.(*Trie)
		vAssert(bytes.Equal(vxRoot(t), vxRoot(m[i].t)), "its hash")
		for _, k := range [][]byte{{1}, {0x10, 2}, {3}} {
			a, aok := vxGet(t, k)
			b, bok := vxGet(m[i].t, k)
			vAssert(aok == bok && a == b, "and its content")
		}
	}
	vReach("opened")
}

// A trie in it that changes changes the root, and only such a trie is saved.
func VH_Change() {
	d := db.NewMemDB()
	c := vxCombined(d)
	tries := vxTries(d)
	n := 1 + vConc(vChoose(3))
	for i := 0; i < n; i++ {
		c.Put([]byte{byte(i)}, tries[i])
	}
	root := vxRoot(c)
	vAssert(c.Commit() == nil, "committed")
	j := vConc(vChoose(n))
	x := vU32()
	vAssume(x != uint32(j+1))
	tries[j].Put([]byte{1}, x)
	vAssert(c.IsDirty(), "dirty")
	changed := vxRoot(c)
	vAssert(!bytes.Equal(changed, root), "another content has another root")
	vAssert(c.Commit() == nil && !c.IsDirty(), "committed")
	for _, r := range [][]byte{root, changed} {
		e := vxCombined(d)
		na, va := vxAdapters(d)
		vAssert(e.InitTrie(r, na, va, vxEncode, vxDecode, vxHasher) == nil && bytes.Equal(vxRoot(e), r), "both can be opened")
		v, _ := e.Get([]byte{byte(j)})
		got, ok := vxGet(v.(*Trie), []byte{1})
		if bytes.Equal(r, root) {
			vAssert(ok && got == uint32(j+1), "the old one")
		} else {
			vAssert(ok && got == x, "the new one")
		}
	}
	vReach("change")
}

// A proof of a trie evaluates to the root from the hash of that trie alone.
func VH_Proof() {
	d := db.NewMemDB()
	c := vxCombined(d)
	n := 1 + vConc(vChoose(vBound("tries", 6, 9)))
	tries := make([]*Trie, n)
	for i := range tries {
		tries[i] = vxContent(d, uint32(i))
		c.Put([]byte{byte(i)}, tries[i])
	}
	root := vxRoot(c)
	j := vConc(vChoose(n))
	v, proof, ok := c.GetProof([]byte{byte(j)})
	vAssert(ok && v == tries[j], "the trie")
	r, err := proof.Proof(common.BytesToHash(vxRoot(tries[j])))
	vAssert(err == nil && bytes.Equal(r, root), "its hash evaluates to the root")
	other := vBytes(32)
	vAssume(!bytes.Equal(other, vxRoot(tries[j])))
	r, err = proof.Proof(common.BytesToHash(other))
	vAssert(err != nil || !bytes.Equal(r, root), "no other does")
	_, _, ok = c.GetProof([]byte{byte(n)})
	vAssert(!ok, "no proof of what is not there")
	vReach("proof")
}

// The same tries under other keys are another content.
func VH_Keys() {
	d := db.NewMemDB()
	t := vxTries(d)[0]
	k, l := vxSubKey(), vxSubKey()
	vAssume(!bytes.Equal(k, l))
	a, b := vxCombined(d), vxCombined(d)
	a.Put(k, t)
	b.Put(l, t)
	root := vxRoot(a)
	vAssert(a.Commit() == nil && b.Commit() == nil, "committed")
	e := vxCombined(d)
	na, va := vxAdapters(d)
	vAssert(e.InitTrie(root, na, va, vxEncode, vxDecode, vxHasher) == nil, "opened")
	vKnown("keys-not-hashed", true)
	keys := e.Keys()
	vAssert(len(keys) == 1 && bytes.Equal([]byte(keys[0]), k), "opened under its own key")
	vReach("keys")
}
