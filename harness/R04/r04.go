//verif:pkg rlp

package rlp

import (
	"bytes"
	"math/big"
)

func vxEnc(v interface{}) []byte {
	b, err := EncodeToBytes(v)
	vAssert(err == nil, "encoded")
	return b
}

func VH_Int() {
	x := vU64()
	enc := vxEnc(x)
	vAssert(IntSize(x) == len(enc), "IntSize")
	vAssert(bytes.Equal(AppendUint64(nil, x), enc), "AppendUint64")
	pre := []byte{7, 8}
	vAssert(bytes.Equal(AppendUint64(pre, x), append([]byte{7, 8}, enc...)), "appended behind what is there")
	// the format: the value itself below 0x80, else its bytes behind their number
	if x == 0 {
		vAssert(bytes.Equal(enc, []byte{0x80}), "zero")
	} else if x < 0x80 {
		vAssert(len(enc) == 1 && uint64(enc[0]) == x, "one byte")
	} else {
		n := len(enc) - 1
		vAssert(n >= 1 && n <= 8 && enc[0] == 0x80+byte(n) && enc[1] != 0, "number of bytes")
		var y uint64
		for _, c := range enc[1:] {
			y = y<<8 | uint64(c)
		}
		vAssert(x == y, "value")
	}
	w := NewEncoderBuffer(nil)
	w.WriteUint64(x)
	vAssert(bytes.Equal(w.ToBytes(), enc), "buffer")
	vReach("integer")
}

func VH_Big() {
	b := vBytes(vChoose(vBound("bytes of a big integer", 11, 33)))
	x := new(big.Int).SetBytes(b)
	for len(b) > 0 && b[0] == 0 {
		b = b[1:]
	}
	enc := vxEnc(x)
	vAssert(uint64(len(enc)) == BytesSize(b), "size of a big integer")
	vAssert(bytes.Equal(enc, vxEnc(b)), "a big integer is its minimal big endian bytes")
	vReach("big")
}

var vxLens []int

func vxLen() int {
	vxLens = []int{0, 1, 2, 54, 55, 56, 57, 255, 256, 257, 65535, 65536, 65537}
	n := vBound("lengths", 10, 13)
	return vConc(vxLens[vChoose(n)])
}

func VH_Bytes() {
	n := vxLen()
	b := make([]byte, n)
	if n > 0 {
		b[0], b[n-1] = vU8(), vU8()
	}
	enc := vxEnc(b)
	vAssert(BytesSize(b) == uint64(len(enc)) && StringSize(string(b)) == uint64(len(enc)), "size of a byte string")
	vAssert(bytes.Equal(enc, vxEnc(string(b))), "text and bytes")
	k, content, rest, err := Split(enc)
	vAssert(err == nil && k != List && bytes.Equal(content, b) && len(rest) == 0, "the content")
	l := vxEnc([][]byte{b})
	vAssert(uint64(len(l)) == ListSize(BytesSize(b)), "size of a list of it")
	vReach("bytes")
}

func VH_List() {
	size := vU64()
	vAssume(size < 1<<62)
	var buf [9]byte
	h := (&listhead{size: int(size)}).encode(buf[:])
	vAssert(ListSize(size) == uint64(len(h))+size && headsize(size) == len(h), "size of a list")
	if size < 56 {
		vAssert(len(h) == 1 && h[0] == 0xC0+byte(size), "short list")
	} else {
		vAssert(h[0] == 0xF7+byte(len(h)-1) && h[1] != 0, "long list")
		var y uint64
		for _, c := range h[1:] {
			y = y<<8 | uint64(c)
		}
		vAssert(y == size, "content size")
	}
	vReach("list header")
}

// The size of lists within lists, as computed and as written.
func VH_Nested() {
	n, m := vConc(50+vChoose(8)), vConc(vChoose(3)*98)
	b, c := make([]byte, n), make([]byte, m)
	b[0], b[n-1] = vU8(), vU8()
	x := []interface{}{[]interface{}{b, []interface{}{}}, c, []interface{}{[]interface{}{c}}}
	enc := vxEnc(x)
	inner := ListSize(BytesSize(b) + ListSize(0))
	want := ListSize(inner + BytesSize(c) + ListSize(ListSize(BytesSize(c))))
	vAssert(uint64(len(enc)) == want, "size of nested lists")
	size, _, err := EncodeToReader(x)
	vAssert(err == nil && uint64(size) == want, "announced size")
	vReach("nested")
}
