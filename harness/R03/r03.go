//verif:pkg rlp

package rlp

import (
	"bytes"
	"io"
)

// vxIn is an arbitrary short input, or one with a long value of fixed bytes
// behind an arbitrary header.
func vxIn() []byte {
	if vChoose(2) == 0 {
		return vBytes(vChoose(vBound("input bytes", 5, 8)))
	}
	b := vBytes(1 + vChoose(vBound("header bytes", 2, 3)))
	return append(b, bytes.Repeat([]byte{0x11}, vConc(55+vChoose(vBound("content lengths", 2, 3))))...)
}

func VH_Split() {
	in := vxIn()
	keep := append([]byte{}, in...)
	k, content, rest, err := Split(in)
	wk, h, n, ok := vxItem(in)
	ok = ok && h+n <= len(in) && !(wk == String && n == 1 && h == 1 && in[1] < 0x80)
	vAssert((err == nil) == ok, "Split takes exactly the canonical values that are complete")
	if err != nil {
		vAssert(bytes.Equal(rest, keep), "on error the input is the rest")
		_, err := NewListIterator(in)
		vAssert(err != nil, "no iterator for a broken value")
		vReach("refused")
		return
	}
	vAssert(k == wk && len(content) == n && bytes.Equal(content, in[h:h+n]) && bytes.Equal(rest, in[h+n:]), "header, content and rest join to the input")
	c, r, e := SplitString(in)
	vAssert((e == nil) == (k != List), "SplitString")
	if e == nil {
		vAssert(bytes.Equal(c, content) && bytes.Equal(r, rest), "SplitString pieces")
	} else {
		vAssert(bytes.Equal(r, keep), "SplitString rest on error")
	}
	c, r, e = SplitList(in)
	vAssert((e == nil) == (k == List), "SplitList")
	if e == nil {
		vAssert(bytes.Equal(c, content) && bytes.Equal(r, rest), "SplitList pieces")
	} else {
		vAssert(bytes.Equal(r, keep), "SplitList rest on error")
	}
	vAssert(bytes.Equal(in, keep), "the input is kept")
	vReach("split")
}

func VH_SplitUint() {
	in := vBytes(vChoose(vBound("integer bytes", 5, 10)))
	x, rest, err := SplitUint64(in)
	k, h, n, ok := vxItem(in)
	ok = ok && k != List && h+n <= len(in) && n <= 8 && (n == 0 || in[h] != 0) && !(n == 1 && h == 1 && in[1] < 0x80)
	vAssert((err == nil) == ok, "exactly the canonical integers")
	if err != nil {
		vAssert(x == 0 && bytes.Equal(rest, in), "on error the input is the rest")
		return
	}
	var u uint64
	for _, c := range in[h : h+n] {
		u = u<<8 | uint64(c)
	}
	vAssert(x == u && bytes.Equal(rest, in[h+n:]), "value and rest")
	vAssert(bytes.Equal(append(AppendUint64(nil, x), rest...), in), "the integer and the rest join to the input")
	vReach("integer")
}

func VH_Count() {
	in := vBytes(vChoose(vBound("counted bytes", 5, 6)))
	n, err := CountValues(in)
	b, m := in, 0
	for len(b) > 0 {
		_, _, rest, e := Split(b)
		if e != nil {
			vAssert(err == e && n == 0, "counting fails where splitting does")
			vReach("uncounted")
			return
		}
		vAssert(len(rest) < len(b), "splitting goes on")
		b, m = rest, m+1
	}
	vAssert(err == nil && n == m, "the number of values")
	vReach("counted")
}

func VH_Iterate() {
	in := vBytes(vChoose(vBound("iterated bytes", 6, 7)))
	it, err := NewListIterator(in)
	content, _, serr := SplitList(in)
	vAssert((err == nil) == (serr == nil), "an iterator for exactly the lists")
	if err != nil {
		return
	}
	var got []byte
	n := 0
	for it.Next() {
		n++
		vAssert(n <= len(in), "iterating ends")
		if it.Err() != nil {
			break
		}
		got = append(got, it.Value()...)
	}
	cnt, cerr := CountValues(content)
	vAssert((it.Err() == nil) == (cerr == nil), "an error for exactly the broken lists")
	vAssert(bytes.HasPrefix(content, got), "the values are the start of the list")
	if cerr == nil {
		vAssert(n == cnt && bytes.Equal(got, content), "the values join to the content")
		vReach("iterated")
	} else {
		for i := 0; it.Next(); i++ {
			vAssert(i < len(in)+1, "iterating a broken list ends")
		}
		vReach("broken list")
	}
}

type vxLegacy struct{ r *bytes.Reader }

func (l vxLegacy) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1]
	}
	return l.r.Read(p)
}

// Any sequence of stream operations on arbitrary bytes, from a limited or an
// unlimited source.
func VH_Stream() {
	in := vBytes(vChoose(vBound("streamed bytes", 3, 5)))
	rd := bytes.NewReader(in)
	var src io.Reader = rd
	limit := uint64(0)
	if vChoose(2) == 0 {
		src = vxLegacy{rd}
		limit = uint64(len(in))
	}
	s := NewStream(src, limit)
	for i, n := 0, vBound("stream operations", 2, 3); i < n; i++ {
		var err error
		switch vChoose(9) {
		case 0:
			_, _, err = s.Kind()
		case 1:
			_, err = s.List()
		case 2:
			err = s.ListEnd()
		case 3:
			var b []byte
			b, err = s.Bytes()
			vAssert(len(b) <= len(in), "bytes lie in the input")
		case 4:
			var b []byte
			b, err = s.Raw()
			vAssert(len(b) <= len(in), "raw bytes lie in the input")
		case 5:
			_, err = s.Uint64()
		case 6:
			_, err = s.BigInt()
		case 7:
			_, err = s.Bool()
		case 8:
			err = s.ReadBytes(make([]byte, vChoose(3)))
		}
		if err == nil {
			vReach("operation")
		}
		s.MoreDataInList()
	}
	vReach("stream")
}

// Decoding arbitrary bytes into the supported kinds never panics.
func VH_Decode() {
	in := vBytes(vChoose(vBound("decoded bytes", 5, 7)))
	var err error
	switch vChoose(6) {
	case 0:
		var x interface{}
		err = DecodeBytes(in, &x)
	case 1:
		var x []uint16
		err = DecodeBytes(in, &x)
	case 2:
		var x struct {
			A uint8
			B []byte
			C []uint `rlp:"tail"`
		}
		err = DecodeBytes(in, &x)
	case 3:
		var x [2]bool
		err = DecodeBytes(in, &x)
	case 4:
		var x [][2]byte
		err = DecodeBytes(in, &x)
	case 5:
		var x struct {
			A *uint8 `rlp:"nil"`
			B *struct{ C string }
			D uint `rlp:"optional"`
		}
		err = DecodeBytes(in, &x)
	}
	if err == nil {
		_, _, rest, e := Split(in)
		vAssert(e == nil && len(rest) == 0, "exactly one value is decoded")
		vReach("decoded")
	}
	vReach("decoding")
}
