//verif:pkg .

package common

import (
	"bytes"
	"errors"
	"io"
)

// vxSome is a proof of up to max steps over two hash values, so that repeats occur; long adds nine more steps.
func vxSome(max int, long bool) *MerkleProofs {
	p := NewMerkleProofs()
	var hs [2]Hash
	for i := range hs {
		hs[i][0], hs[i][31], hs[i][7] = vU8(), vU8(), byte(i)
	}
	cur := 0
	n := vChoose(max + 1)
	for i := 0; i < n; i++ {
		if i > 0 {
			cur = (cur + vChoose(2)) % 2
		}
		p.Append(hs[cur], vChoose(2) == 1)
	}
	if long {
		for i := 0; i < 9; i++ {
			p.Append(Hash{1, byte(i)}, i%3 == 0)
		}
	}
	return p
}

// vxReader returns at most n bytes per call and, like many readers, sometimes the error with the last bytes.
type vxReader struct {
	b    []byte
	n    int
	with bool
}

func (r *vxReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.b) {
		n = len(r.b)
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.with && len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func VH_RoundTrip() {
	long := vChoose(2) == 1
	p := vxSome(vBound("steps", 3, 5), long)
	keep := p.Clone()
	var buf bytes.Buffer
	vAssert(p.Serialization(&buf) == nil, "written")
	vAssert(p.Equal(keep), "writing keeps the proof")
	n := buf.Len()
	buf.Write([]byte{7, 8, 9})
	r := &vxReader{b: buf.Bytes(), n: []int{1, 2, 31, 33, 1000}[vChoose(vBound("fragments", 3, 5))]}
	q := NewMerkleProofs()
	if vChoose(2) == 1 {
		q.Append(Hash{5}, true)
		q.Append(Hash{5}, true)
	}
	isNil, err := q.Deserialization(r)
	vAssert(err == nil && !isNil, "read back")
	vAssert(len(r.b) == 3 && buf.Len() == n+3, "exactly the written bytes are consumed")
	vAssert(q.Equal(p) && p.Equal(q), "equal to the original")
	vReach("round")
}

func VH_Nil() {
	var p *MerkleProofs
	var buf bytes.Buffer
	vAssert(p.Serialization(&buf) == nil && buf.Len() == 1, "nil written")
	q := NewMerkleProofs()
	isNil, err := q.Deserialization(&buf)
	vAssert(err == nil && isNil, "nil read back")
	vReach("nil")
}

// Every proper prefix is refused.
func VH_Truncated() {
	p := vxSome(vBound("cut steps", 2, 3), vChoose(2) == 1)
	var buf bytes.Buffer
	vAssert(p.Serialization(&buf) == nil, "written")
	all := buf.Bytes()
	cut := vChoose(len(all))
	vAssume(cut < 5 || cut > len(all)-7 || cut%32 < 4 || cut%32 == 20)
	r := &vxReader{b: all[:cut], n: []int{1, 1000}[vChoose(2)], with: vChoose(2) == 1}
	_, err := NewMerkleProofs().Deserialization(r)
	vAssert(err != nil, "a truncated proof is refused")
	vReach("truncated")
}

type vxWriter struct{ left int }

var errVx = errors.New("vx: write failed")

func (w *vxWriter) Write(p []byte) (int, error) {
	if w.left < len(p) {
		return 0, errVx
	}
	w.left -= len(p)
	return len(p), nil
}

func VH_WriteError() {
	p := vxSome(vBound("cut steps", 2, 3), vChoose(2) == 1)
	var buf bytes.Buffer
	vAssert(p.Serialization(&buf) == nil, "written")
	cut := vChoose(buf.Len())
	vAssume(cut < 5 || cut > buf.Len()-7 || cut%32 < 4 || cut%32 == 20)
	vAssert(p.Serialization(&vxWriter{cut}) == errVx, "a failed write is reported")
	vReach("write error")
}
