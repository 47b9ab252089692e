//verif:pkg rlp

package rlp

import (
	"reflect"
)

// vxItem is the RLP value at the start of b, read by the rules of the
// format: kind, header length, content length. ok is false where no value
// stands, complete where the value is there to its end.
func vxItem(b []byte) (k Kind, head, size int, ok bool) {
	if len(b) == 0 {
		return 0, 0, 0, false
	}
	c := b[0]
	if c < 0x80 {
		return Byte, 0, 1, true
	}
	k = String
	if c >= 0xC0 {
		k = List
		c -= 0x40
	}
	if c <= 0x80+55 {
		return k, 1, int(c - 0x80), true
	}
	n := int(c - 0x80 - 55)
	if len(b) < 1+n || b[1] == 0 {
		return 0, 0, 0, false
	}
	var u uint64
	for i := 0; i < n; i++ {
		u = u<<8 | uint64(b[1+i])
	}
	if u < 56 || u > 1<<40 {
		return 0, 0, 0, false // too long to be there in any case
	}
	return k, 1 + n, int(u), true
}

// byteArrayBytes makes a slice header by hand; its other build variant is
// taken where that cannot be followed.
//
//verif:stub github.com/ThinkiumGroup/go-common/rlp.byteArrayBytes
func vxByteArrayBytes(v reflect.Value, length int) []byte {
	return v.Slice(0, length).Bytes()
}
