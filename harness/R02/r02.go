//verif:pkg rlp

package rlp

import (
	"bytes"
	"math/big"

	"github.com/holiman/uint256"
)

func vxBack(in []byte, to interface{}) {
	keep := append([]byte{}, in...)
	err := DecodeBytes(in, to)
	vAssert(bytes.Equal(in, keep), "the input is kept")
	if err != nil {
		vReach("refused")
		return
	}
	out, err := EncodeToBytes(to)
	vAssert(err == nil && bytes.Equal(out, keep), "the value encodes to the input")
	vReach("accepted")
}

func VH_Scalars() {
	in := vBytes(vChoose(vBound("bytes of a scalar", 4, 10)))
	switch vChoose(10) {
	case 0:
		vxBack(in, new(uint8))
	case 1:
		vxBack(in, new(uint16))
	case 2:
		vxBack(in, new(uint64))
	case 3:
		vxBack(in, new(bool))
	case 4:
		vxBack(in, new(string))
	case 5:
		vxBack(in, new([]byte))
	case 6:
		vxBack(in, new([2]byte))
	case 7:
		vxBack(in, new([1]byte))
	case 8:
		vxBack(in, new(big.Int))
	case 9:
		vxBack(in, new(uint256.Int))
	}
}

func VH_Lists() {
	in := vBytes(vChoose(vBound("bytes of a list", 5, 7)))
	switch vChoose(6) {
	case 0:
		vxBack(in, new([]uint16))
	case 1:
		vxBack(in, new([2]string))
	case 2:
		vxBack(in, new([][]byte))
	case 3:
		vxBack(in, new([]*bool))
	case 4:
		vxBack(in, new(vxTail))
	case 5:
		vxBack(in, new([]vxVersion))
	}
}

func VH_Structs() {
	in := vBytes(vChoose(vBound("bytes of a struct", 5, 7)))
	switch vChoose(4) {
	case 0:
		vxBack(in, new(vxInner))
	case 1:
		vxBack(in, new(vxVersion))
	case 2:
		vxBack(in, new(struct {
			U *uint8   `rlp:"nil"`
			S *vxInner `rlp:"nil"`
			L *vxInner `rlp:"nilString"`
		}))
	case 3:
		vxBack(in, new(vxNode))
	}
}

func VH_Any() {
	in := vBytes(vChoose(vBound("bytes of anything", 4, 6)))
	var v interface{}
	vxBack(in, &v)
}

// Long strings and lists: the size behind the header is arbitrary.
func VH_Long() {
	b := vBytes(vBound("bytes of a long header", 3, 4))
	in := append(b, bytes.Repeat([]byte{0x11}, vConc(55+vChoose(2)))...)
	switch vChoose(4) {
	case 0:
		vxBack(in, new([]byte))
	case 1:
		vxBack(in, new([]uint8))
	case 2:
		vxBack(in, new([]uint16))
	case 3:
		vxBack(in, new(RawValue))
	}
}

// Optional fields may be left out, but what is read is what was meant: a
// shortest encoding is accepted as it is, a longer one only for its zeros.
func VH_Optional() {
	in := vBytes(vChoose(vBound("bytes with optional fields", 5, 7)))
	v := vxOpt{9, 9, []byte{9}, big.NewInt(9)}
	if DecodeBytes(in, &v) != nil {
		vReach("refused")
		return
	}
	out, err := EncodeToBytes(&v)
	vAssert(err == nil && len(out) <= len(in), "encodes to no more")
	if len(out) == len(in) {
		vAssert(bytes.Equal(out, in), "the shortest encoding")
	}
	c1, _, _ := SplitList(in)
	c2, _, _ := SplitList(out)
	vAssert(bytes.HasPrefix(c1, c2), "the fields in order")
	for _, c := range c1[len(c2):] {
		vAssert(c == 0x80, "only zeros are left out")
	}
	vReach("optional")
}
