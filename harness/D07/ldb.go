//verif:pkg db

package db

import (
	"errors"
	"os"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Symbolically the disk store is the map below, with goleveldb's documented
// results; natively it is goleveldb itself, over memory or a scratch directory.

type vxDisk struct {
	db     *leveldb.DB
	path   string
	data   map[string][]byte
	closed bool
	broken bool
}

var (
	vxDisks []*vxDisk
	vxFault bool // writes to the store fail from now on
)

func vxDiskOf(db *leveldb.DB) *vxDisk {
	for _, d := range vxDisks {
		if d.db == db {
			return d
		}
	}
	panic("vx: unknown disk")
}

func (d *vxDisk) write() error {
	if d.closed {
		return leveldb.ErrClosed
	}
	if vxFault || d.broken {
		d.broken = true
		return errVxDB
	}
	return nil
}

//verif:stub github.com/syndtr/goleveldb/leveldb.Open
func vxOpen(stor storage.Storage, o *opt.Options) (*leveldb.DB, error) {
	d := &vxDisk{db: new(leveldb.DB), data: map[string][]byte{}}
	vxDisks = append(vxDisks, d)
	return d.db, nil
}

//verif:stub github.com/syndtr/goleveldb/leveldb.OpenFile
func vxOpenFile(path string, o *opt.Options) (*leveldb.DB, error) {
	if path == vxBadPath {
		return nil, errVxDB
	}
	d := &vxDisk{db: new(leveldb.DB), path: path, data: map[string][]byte{}}
	for _, old := range vxDisks {
		if old.path == path {
			if !old.closed {
				return nil, errVxDB // locked
			}
			d.data = old.data
		}
	}
	vxDisks = append(vxDisks, d)
	return d.db, nil
}

//verif:stub github.com/syndtr/goleveldb/leveldb/storage.NewMemStorage
func vxNewMemStorage() storage.Storage { return nil }

//verif:stub os.RemoveAll
func vxRemoveAll(path string) error { return nil }

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Put
func vxLdbPut(db *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	d := vxDiskOf(db)
	if err := d.write(); err != nil {
		return err
	}
	d.Put(key, value)
	return nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func vxLdbDelete(db *leveldb.DB, key []byte, wo *opt.WriteOptions) error {
	d := vxDiskOf(db)
	if err := d.write(); err != nil {
		return err
	}
	d.Delete(key)
	return nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Write
func vxLdbWrite(db *leveldb.DB, b *leveldb.Batch, wo *opt.WriteOptions) error {
	d := vxDiskOf(db)
	if d.closed {
		return leveldb.ErrClosed
	}
	if b == nil || b.Len() == 0 {
		return nil
	}
	if err := d.write(); err != nil {
		return err
	}
	return b.Replay(d)
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Get
func vxLdbGet(db *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	d := vxDiskOf(db)
	if d.closed {
		return nil, leveldb.ErrClosed
	}
	v, ok := d.data[string(key)]
	if !ok {
		return nil, leveldb.ErrNotFound
	}
	return append([]byte{}, v...), nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Has
func vxLdbHas(db *leveldb.DB, key []byte, ro *opt.ReadOptions) (bool, error) {
	d := vxDiskOf(db)
	if d.closed {
		return false, leveldb.ErrClosed
	}
	_, ok := d.data[string(key)]
	return ok, nil
}

//verif:stub (*github.com/syndtr/goleveldb/leveldb.DB).Close
func vxLdbClose(db *leveldb.DB) error {
	d := vxDiskOf(db)
	if d.closed {
		return leveldb.ErrClosed
	}
	d.closed = true
	return nil
}

func (d *vxDisk) Put(key, value []byte) { d.data[string(key)] = append([]byte{}, value...) }
func (d *vxDisk) Delete(key []byte)     { delete(d.data, string(key)) }

// vxFaulty is a memory storage whose files refuse writes while vxFault is set.
type vxFaulty struct{ storage.Storage }

type vxFaultyWriter struct{ storage.Writer }

func (s vxFaulty) Create(fd storage.FileDesc) (storage.Writer, error) {
	w, err := s.Storage.Create(fd)
	return vxFaultyWriter{w}, err
}

func (w vxFaultyWriter) Write(p []byte) (int, error) {
	if vxFault {
		return 0, errVxDB
	}
	return w.Writer.Write(p)
}

const (
	vxPath    = "vx-scratch-ldb"
	vxBadPath = "/dev/null/vx"
)

func vxReset() { vxDisks, vxFault = nil, false }

func vxFaultyLDB() *LDB {
	vxReset()
	db, err := leveldb.Open(vxFaulty{storage.NewMemStorage()}, nil)
	if err != nil {
		panic(err)
	}
	return &LDB{db: db}
}

func VH_History() {
	d := vxFaultyLDB()
	s := vxNewStore(vxKeys(2))
	vxAgree(d, s, "empty")
	vxOps(d, s, vBound("operations", 2, 3), true)
	vxAgree(d, s, "after operations")
	vReach("history")
}

func VH_WriteFailure() {
	d := vxFaultyLDB()
	s := vxNewStore(vxKeys(2))
	vxOps(d, s, 1, false)
	vxFault = true
	j := vChoose(2)
	var err error
	switch vChoose(3) {
	case 0:
		err = d.Put(s.keys[j], []byte{1, 2})
	case 1:
		err = d.Delete(s.keys[j])
	case 2:
		b := d.NewBatch()
		if vChoose(2) == 0 {
			b.Put(s.keys[j], []byte{1, 2})
		} else {
			b.Delete(s.keys[j])
		}
		err = d.Batch(b)
	}
	vAssert(err != nil, "a failed write is reported")
	vxAgree(d, s, "a failed write changes nothing")
	vReach("write failure")
}

func VH_Life() {
	vxReset()
	os.RemoveAll(vxPath)
	_, err := NewLDB(vxBadPath)
	vAssert(err != nil, "a store that does not open is reported")
	d, err := NewLDB(vxPath)
	vAssert(err == nil && d.Path() == vxPath, "opened")
	s := vxNewStore(vxKeys(2))
	vxOps(d, s, 1, true)
	vAssert(d.Close() == nil, "closed")
	// every operation on a closed store fails
	b := d.NewBatch()
	b.Put(s.keys[0], []byte{1})
	_, e1 := d.Get(s.keys[0])
	_, e2 := d.Has(s.keys[1])
	vAssert(e1 != nil && e2 != nil && d.Put(s.keys[0], []byte{1}) != nil && d.Delete(s.keys[0]) != nil && d.Batch(b) != nil, "a closed store is reported by every operation")
	vAssert(d.Close() != nil, "closed only once")
	d, err = NewLDB(vxPath)
	vAssert(err == nil, "opened again")
	vxAgree(d, s, "what was written is still there")
	_, err = NewLDB(vxPath)
	vAssert(err != nil, "a store in use is not opened twice")
	vAssert(d.Close() == nil, "closed")
	os.RemoveAll(vxPath)
	vReach("life")
}

// The cache in front of the disk store.
func VH_CachedLife() {
	vxReset()
	os.RemoveAll(vxPath)
	size := vChoose(3)
	_, err := NewCachedDBWithPath(vxBadPath, size)
	vAssert(err != nil, "a store that does not open is reported")
	d, err := NewCachedDBWithPath(vxPath, size)
	vAssert(err == nil, "opened")
	s := vxNewStore(vxKeys(2))
	vxOps(d, s, 2, false)
	vxBatch(d, s, 1)
	vxAgree(d, s, "cached")
	vxAgree(d, s, "cached, again")
	vAssert(d.Close() == nil && d.Put(s.keys[0], []byte{1}) != nil, "closed")
	d, err = NewCachedDBWithPath(vxPath, size)
	vAssert(err == nil, "opened again")
	vxAgree(d, s, "what was written is still there")
	vAssert(d.Close() == nil, "closed")
	os.RemoveAll(vxPath)
	vReach("cached life")
}

type vxOtherBatch struct{}

func (vxOtherBatch) Put(key, value []byte) error { return nil }
func (vxOtherBatch) Delete(key []byte) error     { return nil }
func (vxOtherBatch) Size() int                   { return 0 }

func VH_ForeignBatch() {
	d := vxFaultyLDB()
	vAssert(d.Batch(vxOtherBatch{}) != nil, "a batch of another kind is refused")
	_ = errors.New
	vReach("foreign")
}
