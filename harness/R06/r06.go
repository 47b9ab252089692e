//verif:pkg rlp

package rlp

import (
	"bytes"
	"io"
)

type vxUnlim struct{ r *bytes.Reader }

func (u vxUnlim) Read(p []byte) (int, error) { return u.r.Read(p) }
func (u vxUnlim) ReadByte() (byte, error)    { return u.r.ReadByte() }

// vxStream is the model: a position in the input, the ends of the open lists
// and the end of what may be read.
type vxStream struct {
	in    []byte
	pos   int
	ends  []int
	limit int
}

func (m *vxStream) end() int {
	if len(m.ends) > 0 {
		return m.ends[len(m.ends)-1]
	}
	return m.limit
}

// next is the value ahead, if one fits.
func (m *vxStream) next() (k Kind, h, n int, ok bool) {
	top := m.end()
	if top > m.limit {
		top = m.limit
	}
	if m.pos >= top {
		return 0, 0, 0, false
	}
	e := top
	if e > len(m.in) {
		e = len(m.in)
	}
	k, h, n, ok = vxItem(m.in[m.pos:e])
	return k, h, n, ok && m.pos+h+n <= top
}

func vxNewStream(depth int) (*Stream, *vxStream, *bytes.Reader) {
	source := vChoose(3)
	if source > 0 {
		depth--
	}
	in := vBytes(vChoose(depth))
	rd := bytes.NewReader(in)
	m := &vxStream{in: in}
	switch source {
	case 0: // the limit of the reader itself
		m.limit = len(in)
		return NewStream(rd, 0), m, rd
	case 1: // a given limit
		m.limit = vConc(len(in) + vChoose(3) - 1)
		vAssume(m.limit > 0)
		return NewStream(vxUnlim{rd}, uint64(m.limit)), m, rd
	}
	// no limit: sizes are not checked before memory is taken for them
	for _, c := range in {
		vAssume(c < 0xB9 || (c >= 0xC0 && c < 0xF9))
	}
	m.limit = 1 << 50
	return NewStream(vxUnlim{rd}, 0), m, rd
}

func vxStep(s *Stream, m *vxStream, op int) bool {
	k, h, n, ok := m.next()
	there := ok && m.pos+h+n <= len(m.in)
	var content []byte
	if there {
		content = m.in[m.pos+h : m.pos+h+n]
	}
	atEnd := len(m.ends) > 0 && m.pos == m.end()
	single := there && k == String && n == 1 && content[0] < 0x80
	str := there && k != List && !single
	switch op {
	case 0:
		gk, gn, err := s.Kind()
		vAssert((err == nil) == ok && (err == EOL) == atEnd, "Kind succeeds exactly if a value is ahead that fits")
		if err == nil {
			if k == Byte {
				n = 0
			}
			vAssert(gk == k && gn == uint64(n), "kind and size")
		}
		return err == nil
	case 1:
		gn, err := s.List()
		vAssert((err == nil) == (ok && k == List), "List enters exactly the lists that fit")
		if err == nil {
			vAssert(gn == uint64(n), "list size")
			m.pos += h
			m.ends = append(m.ends, m.pos+n)
			vReach("list")
		}
		return err == nil
	case 2:
		err := s.ListEnd()
		vAssert((err == nil) == atEnd, "ListEnd exactly at the end of a list")
		if err == nil {
			m.ends = m.ends[:len(m.ends)-1]
			vReach("list end")
		}
		return err == nil
	case 3:
		b, err := s.Bytes()
		vAssert((err == nil) == str, "Bytes takes exactly the strings that fit")
		if err == nil {
			vAssert(bytes.Equal(b, content), "bytes")
			m.pos += h + n
			vReach("bytes")
		}
		return err == nil
	case 4:
		b, err := s.Raw()
		vAssert((err == nil) == there, "Raw takes exactly the values that fit")
		if err == nil {
			vAssert(bytes.Equal(b, m.in[m.pos:m.pos+h+n]), "raw value")
			m.pos += h + n
			vReach("raw")
		}
		return err == nil
	case 5:
		x, err := s.Uint64()
		vAssert((err == nil) == (str && n <= 8 && (n == 0 || content[0] != 0)), "Uint64 takes exactly the canonical integers that fit")
		if err == nil {
			var y uint64
			for _, c := range content {
				y = y<<8 | uint64(c)
			}
			vAssert(x == y, "integer")
			m.pos += h + n
			vReach("integer")
		}
		return err == nil
	case 6:
		b := make([]byte, vChoose(3))
		err := s.ReadBytes(b)
		vAssert((err == nil) == (str && n == len(b)), "ReadBytes takes exactly the strings of that size")
		if err == nil {
			vAssert(bytes.Equal(b, content), "bytes read")
			m.pos += h + n
		}
		return err == nil
	}
	more := len(m.ends) > 0 && m.pos < m.end()
	vAssert(s.MoreDataInList() == more, "MoreDataInList")
	return true
}

func VH_Ops() {
	s, m, _ := vxNewStream(vBound("bytes of the stream", 4, 6))
	for i, n := 0, vBound("operations", 2, 3); i < n; i++ {
		if !vxStep(s, m, vChoose(8)) {
			vReach("stopped")
			return
		}
	}
	vReach("operations")
}

// Longer runs of the operations that move between lists, on short headers.
func VH_Moves() {
	in := vBytes(vChoose(vBound("bytes of the lists", 4, 6)))
	for _, c := range in {
		vAssume(c >= 0x7F && c <= 0x82 || c >= 0xC0 && c <= 0xC4)
	}
	s, m := NewStream(bytes.NewReader(in), 0), &vxStream{in: in, limit: len(in)}
	for i, n := 0, vBound("moves", 4, 6); i < n; i++ {
		ops := []int{0, 1, 2, 4, 7}
		if !vxStep(s, m, ops[vChoose(5)]) {
			vReach("stopped")
			return
		}
	}
	vReach("moves")
}

// Everything that a walk over nested lists hands out lies in its list, and
// the pieces join to the input.
func vxWalk(s *Stream, m *vxStream, depth int) ([]byte, bool) {
	var out []byte
	for {
		k, n, err := s.Kind()
		if err == EOL || err == io.EOF {
			return out, true
		}
		if err != nil {
			return nil, false
		}
		if k != List || depth == 0 {
			b, err := s.Raw()
			if err != nil {
				return nil, false
			}
			out = append(out, b...)
			continue
		}
		if _, err := s.List(); err != nil {
			return nil, false
		}
		sub, ok := vxWalk(s, m, depth-1)
		if !ok {
			return nil, false
		}
		vAssert(uint64(len(sub)) == n, "the pieces of a list fill it")
		vAssert(s.ListEnd() == nil, "the list ends behind its last value")
		var head [9]byte
		h := puthead(head[:], 0xC0, 0xF7, n)
		out = append(append(out, head[:h]...), sub...)
	}
}

func VH_Walk() {
	s, m, _ := vxNewStream(vBound("bytes walked over", 4, 7))
	out, ok := vxWalk(s, m, 2)
	if ok {
		n := len(m.in)
		if m.limit < n {
			n = m.limit
		}
		vAssert(bytes.Equal(out, m.in[:n]), "the pieces join to the input")
		vReach("walked")
	}
}

// A stream over the content of a list, and streams used again.
func VH_ListStream() {
	in := vBytes(vChoose(vBound("bytes of the list", 3, 5)))
	n := vChoose(len(in) + 1)
	s := NewListStream(bytes.NewReader(in), uint64(n))
	size, err := s.List()
	vAssert(err == nil && size == uint64(n), "positioned at a list")
	m := &vxStream{in: in, ends: []int{n}, limit: n}
	if n == 0 {
		m.limit = len(in)
	}
	for i, n := 0, vBound("operations on the list", 1, 2); i < n; i++ {
		if !vxStep(s, m, vChoose(8)) {
			break
		}
	}
	in = vBytes(vBound("bytes of the next stream", 1, 2))
	s.Reset(bytes.NewReader(in), 0)
	vxStep(s, &vxStream{in: in, limit: len(in)}, 4)
	vReach("list stream")
}
