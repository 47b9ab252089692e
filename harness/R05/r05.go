//verif:pkg rlp

package rlp

import (
	"bytes"
	"io"
	"math/big"

	"github.com/holiman/uint256"
)

// vxValue is a value of some shape, and the same written step by step.
func vxValue() (interface{}, func(w EncoderBuffer)) {
	switch vChoose(7) {
	case 0:
		a, b := vU16(), vBool()
		return []interface{}{a, b}, func(w EncoderBuffer) {
			l := w.List()
			w.WriteUint64(uint64(a))
			w.WriteBool(b)
			w.ListEnd(l)
		}
	case 1:
		n := vConc(53 + vChoose(4))
		b := make([]byte, n)
		b[0] = vU8()
		s := vxText(1)
		return [][]string{{string(b), s}, {}, {s}}, func(w EncoderBuffer) {
			l := w.List()
			k := w.List()
			w.WriteBytes(b)
			w.WriteString(s)
			w.ListEnd(k)
			k = w.List()
			w.ListEnd(k)
			k = w.List()
			w.WriteString(s)
			w.ListEnd(k)
			w.ListEnd(l)
		}
	case 2:
		b := new(big.Int).SetBytes(vBytes(vConc(1 + vChoose(2)*8)))
		return b, func(w EncoderBuffer) { w.WriteBigInt(b) }
	case 3:
		u := new(uint256.Int).SetBytes(vBytes(vConc(1 + vChoose(2)*8)))
		return u, func(w EncoderBuffer) { w.WriteUint256(u) }
	case 4:
		v := &vxVersion{vU16(), 300}
		return v, func(w EncoderBuffer) { vAssert(Encode(w, v) == nil, "encoded into a buffer") }
	case 5:
		b := vxText(2)
		return b, func(w EncoderBuffer) { w.WriteBytes([]byte(b)) }
	}
	v := vxOuter{A: vU16(), P: &vxInner{vBool(), "abc"}, L: []vxInner{{true, "x"}, {}}}
	return &v, func(w EncoderBuffer) {
		in := func(i vxInner) {
			l := w.List()
			w.WriteBool(i.T)
			w.WriteString(i.S)
			w.ListEnd(l)
		}
		l := w.List()
		w.WriteUint64(uint64(v.A))
		in(v.I)
		in(*v.P)
		k := w.List()
		in(v.L[0])
		in(v.L[1])
		w.ListEnd(k)
		vAssert(Encode(&w, &v.V) == nil, "encoded into a buffer")
		w.ListEnd(l)
	}
}

func VH_Ways() {
	v, steps := vxValue()
	want, err := EncodeToBytes(v)
	vAssert(err == nil, "encoded")
	keep := append([]byte{}, want...)
	var buf bytes.Buffer
	vAssert(Encode(&buf, v) == nil && bytes.Equal(buf.Bytes(), want), "to a writer")
	w := NewEncoderBuffer(&buf)
	steps(w)
	vAssert(bytes.Equal(w.ToBytes(), want), "through a buffer")
	app := w.AppendToBytes([]byte{1, 2})
	vAssert(bytes.Equal(app, append([]byte{1, 2}, want...)), "appended")
	buf.Reset()
	vAssert(w.Flush() == nil && bytes.Equal(buf.Bytes(), want), "flushed")
	w = NewEncoderBuffer(nil)
	w.WriteUint64(1)
	w.Reset(&buf)
	steps(w)
	buf.Reset()
	vAssert(w.Flush() == nil && bytes.Equal(buf.Bytes(), want), "a buffer used again")
	vAssert(bytes.Equal(want, keep), "results stay as they are")
	vReach("ways")
}

func VH_Reader() {
	v, _ := vxValue()
	want, err := EncodeToBytes(v)
	vAssert(err == nil, "encoded")
	size, r, err := EncodeToReader(v)
	vAssert(err == nil && size == len(want), "size")
	piece := vConc(1 + vChoose(vBound("piece sizes", 4, 6)))
	if piece == 4 {
		piece = 100
	}
	if piece >= 5 {
		piece += 50
	}
	var out []byte
	for i := 0; ; i++ {
		vAssert(i <= len(want)+1, "reading ends")
		b := make([]byte, piece)
		n, err := r.Read(b)
		out = append(out, b[:n]...)
		if err == io.EOF {
			break
		}
		vAssert(err == nil && n == piece, "full pieces before the last")
		if i == 0 {
			// the buffers of others are not those of this reader
			vxOther()
		}
	}
	vAssert(bytes.Equal(out, want), "the pieces join to the encoding")
	// the buffer went back: it is used by others, and the reader stays at its end
	_, r2, err := EncodeToReader(&vxVersion{1, 2})
	vAssert(err == nil, "encoded")
	n, err := r.Read(make([]byte, 3))
	vAssert(n == 0 && err == io.EOF, "the end stays the end")
	b := make([]byte, 9)
	n, err = r2.Read(b)
	vAssert(err == io.EOF && bytes.Equal(b[:n], []byte{0xC2, 1, 2}), "a reader behind another")
	vReach("reader")
}

func vxOther() {
	b, err := EncodeToBytes([]string{"other", "value"})
	vAssert(err == nil && string(b) == "\xcc\x85other\x85value", "another encoding")
}

type vxFailing struct{}

func (vxFailing) EncodeRLP(w io.Writer) error {
	NewEncoderBuffer(w).List()
	return io.ErrClosedPipe
}

type vxBroken struct{ left int }

func (b *vxBroken) Write(p []byte) (int, error) {
	if len(p) > b.left {
		n := b.left
		b.left = 0
		return n, io.ErrShortWrite
	}
	b.left -= len(p)
	return len(p), nil
}

// Failed encodings report their error and leave nothing behind.
func VH_Failures() {
	a := vU8()
	_, err := EncodeToBytes([]interface{}{a, vxFailing{}})
	vAssert(err == io.ErrClosedPipe, "the error of a value")
	_, _, err = EncodeToReader([]interface{}{a, vxFailing{}})
	vAssert(err == io.ErrClosedPipe, "the error of a value")
	_, err = EncodeToBytes([]interface{}{a, big.NewInt(-1)})
	vAssert(err == ErrNegativeBigInt, "negative integer")
	v := []string{"abc", "def"}
	want, err := EncodeToBytes(v)
	vAssert(err == nil && string(want) == "\xc8\x83abc\x83def", "the next encoding is whole")
	n := vConc(vChoose(10))
	err = Encode(&vxBroken{n}, v)
	vAssert((err == nil) == (n >= len(want)), "the error of the writer")
	vxOther()
	vReach("failures")
}
