//verif:pkg rlp

package rlp

import (
	"bytes"
	"io"
	"math/big"

	"github.com/holiman/uint256"
)

// vxVersion has its own encoding: the list of its parts.
type vxVersion struct{ major, minor uint16 }

func (v *vxVersion) EncodeRLP(w io.Writer) error {
	b := NewEncoderBuffer(w)
	l := b.List()
	b.WriteUint64(uint64(v.major))
	if err := Encode(b, v.minor); err != nil {
		return err
	}
	b.ListEnd(l)
	return b.Flush()
}

func (v *vxVersion) DecodeRLP(s *Stream) error {
	if _, err := s.List(); err != nil {
		return err
	}
	var err error
	if v.major, err = s.Uint16(); err != nil {
		return err
	}
	if err = s.Decode(&v.minor); err != nil {
		return err
	}
	return s.ListEnd()
}

type vxInner struct {
	T bool
	S string
}

type vxOuter struct {
	A uint16
	I vxInner
	P *vxInner
	L []vxInner
	V vxVersion
}

type vxNils struct {
	U *uint8   `rlp:"nil"`
	B *[2]byte `rlp:"nil"`
	S *vxInner `rlp:"nil"`
	L *vxInner `rlp:"nilString"`
	G *string  `rlp:"nilList"`
}

type vxTail struct {
	A uint8
	x int
	N int      `rlp:"-"`
	T []uint16 `rlp:"tail"`
}

type vxOpt struct {
	A uint8
	B uint16   `rlp:"optional"`
	C []byte   `rlp:"optional"`
	D *big.Int `rlp:"optional"`
}

// vxNode is a type that contains itself.
type vxNode struct {
	V    uint8
	Next *vxNode `rlp:"nil"`
	Kids []vxNode
}

func vxRound(v, to interface{}) {
	b, err := EncodeToBytes(v)
	vAssert(err == nil, "encoded")
	vAssert(DecodeBytes(b, to) == nil, "the encoding is decoded")
	s := NewStream(bytes.NewReader(append(b, b...)), 0)
	raw, err := s.Raw()
	vAssert(err == nil && bytes.Equal(raw, b), "the encoding is one value")
}

func vxSmall() uint64 {
	switch vChoose(3) {
	case 0:
		return uint64(vU8())
	case 1:
		return uint64(vU16())
	}
	return 0
}

func vxText(max int) string { return string(vBytes(vChoose(max + 1))) }

func vxU256() *uint256.Int {
	return new(uint256.Int).SetBytes(vBytes(vBound("bytes of a 256 bit integer", 10, 32)))
}
