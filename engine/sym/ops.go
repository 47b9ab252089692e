package sym

import (
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"verif/engine/smt"
)

func (m *M) rtPanic(msg string) {
	panic(goPanic{v: m.mkError("runtime error: " + msg), msg: "runtime error: " + msg, rt: true})
}

func (m *M) binop(op token.Token, t, t2 *TI, a, b V) V {
	switch t.K {
	case KInt:
		return m.intop(op, t, t2, a, b)
	case KBool:
		switch op {
		case token.EQL:
			return m.eqBool(a, b)
		case token.NEQ:
			return m.not(m.eqBool(a, b))
		case token.AND, token.LAND:
			return m.and(a, b)
		case token.OR, token.LOR:
			return m.or(a, b)
		case token.XOR:
			return m.not(m.eqBool(a, b))
		}
	case KString:
		switch op {
		case token.ADD:
			return m.concat(a, b)
		case token.EQL:
			return m.eq(t, a, b)
		case token.NEQ:
			return m.not(m.eq(t, a, b))
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return m.not(m.strLess(b, a))
		case token.GEQ:
			return m.not(m.strLess(a, b))
		}
	case KFloat:
		return m.floatop(op, t, a, b)
	default:
		switch op {
		case token.EQL:
			return m.eq2(t, t2, a, b)
		case token.NEQ:
			return m.not(m.eq2(t, t2, a, b))
		}
	}
	m.unsupported("operator %v on %v", op, t.T)
	return V{}
}

func (m *M) not(a V) V {
	if a.P == nil {
		return V{U: a.U ^ 1}
	}
	return tv(m.c.Not(a.P.(*smt.Term)))
}

func (m *M) and(a, b V) V {
	if a.P == nil {
		if a.U == 0 {
			return V{}
		}
		return b
	}
	if b.P == nil {
		if b.U == 0 {
			return V{}
		}
		return a
	}
	return tv(m.c.And(a.P.(*smt.Term), b.P.(*smt.Term)))
}

func (m *M) or(a, b V) V { return m.not(m.and(m.not(a), m.not(b))) }

func (m *M) eqBool(a, b V) V {
	if a.P == nil && b.P == nil {
		return bv(a.U == b.U)
	}
	if a.P == nil {
		a, b = b, a
	}
	if b.P == nil {
		if b.U != 0 {
			return a
		}
		return m.not(a)
	}
	x, y := a.P.(*smt.Term), b.P.(*smt.Term)
	return tv(m.c.Or(m.c.And(x, y), m.c.And(m.c.Not(x), m.c.Not(y))))
}

func (m *M) intop(op token.Token, t, t2 *TI, a, b V) V {
	w := t.W
	if a.P == nil && b.P == nil {
		x, y := a.U, b.U
		switch op {
		case token.ADD:
			return V{U: (x + y) & mask(w)}
		case token.SUB:
			return V{U: (x - y) & mask(w)}
		case token.MUL:
			return V{U: (x * y) & mask(w)}
		case token.QUO, token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if t.Signed {
				p, q := sx(x, w), sx(y, w)
				if q == -1 {
					if op == token.QUO {
						return V{U: uint64(-p) & mask(w)}
					}
					return V{}
				}
				if op == token.QUO {
					return V{U: uint64(p/q) & mask(w)}
				}
				return V{U: uint64(p%q) & mask(w)}
			}
			if op == token.QUO {
				return V{U: x / y}
			}
			return V{U: x % y}
		case token.AND:
			return V{U: x & y}
		case token.OR:
			return V{U: x | y}
		case token.XOR:
			return V{U: x ^ y}
		case token.AND_NOT:
			return V{U: x &^ y}
		case token.SHL:
			if t2.Signed && sx(y, t2.W) < 0 {
				m.rtPanic("negative shift amount")
			}
			if y >= 64 {
				return V{}
			}
			return V{U: (x << y) & mask(w)}
		case token.SHR:
			if t2.Signed && sx(y, t2.W) < 0 {
				m.rtPanic("negative shift amount")
			}
			if t.Signed {
				if y >= 64 {
					y = 63
				}
				return V{U: uint64(sx(x, w)>>y) & mask(w)}
			}
			if y >= 64 {
				return V{}
			}
			return V{U: x >> y}
		case token.EQL:
			return bv(x == y)
		case token.NEQ:
			return bv(x != y)
		}
		if t.Signed {
			p, q := sx(x, w), sx(y, w)
			switch op {
			case token.LSS:
				return bv(p < q)
			case token.LEQ:
				return bv(p <= q)
			case token.GTR:
				return bv(p > q)
			case token.GEQ:
				return bv(p >= q)
			}
		}
		switch op {
		case token.LSS:
			return bv(x < y)
		case token.LEQ:
			return bv(x <= y)
		case token.GTR:
			return bv(x > y)
		case token.GEQ:
			return bv(x >= y)
		}
		m.unsupported("int operator %v", op)
	}
	c := m.c
	x := m.term(a, w)
	if op == token.SHL || op == token.SHR {
		y := m.term(b, t2.W)
		if t2.Signed && b.P != nil {
			if m.branch(tv(c.Slt(y, c.Const(t2.W, 0)))) {
				m.rtPanic("negative shift amount")
			}
		} else if t2.Signed && sx(b.U, t2.W) < 0 {
			m.rtPanic("negative shift amount")
		}
		if op == token.SHL {
			return tv(c.Shl(x, y))
		}
		if t.Signed {
			return tv(c.Ashr(x, y))
		}
		return tv(c.Lshr(x, y))
	}
	y := m.term(b, w)
	switch op {
	case token.ADD:
		return tv(c.Add(x, y))
	case token.SUB:
		return tv(c.Sub(x, y))
	case token.MUL:
		return tv(c.Mul(x, y))
	case token.QUO, token.REM:
		if b.P == nil {
			if b.U == 0 {
				m.rtPanic("integer divide by zero")
			}
		} else if m.branch(tv(c.Eq(y, c.Const(w, 0)))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case t.Signed && op == token.QUO:
			return tv(c.SDiv(x, y))
		case t.Signed:
			return tv(c.SRem(x, y))
		case op == token.QUO:
			return tv(c.UDiv(x, y))
		default:
			return tv(c.URem(x, y))
		}
	case token.AND:
		return tv(c.BAnd(x, y))
	case token.OR:
		return tv(c.BOr(x, y))
	case token.XOR:
		return tv(c.BXor(x, y))
	case token.AND_NOT:
		return tv(c.BAnd(x, c.BNot(y)))
	case token.EQL:
		return tv(c.Eq(x, y))
	case token.NEQ:
		return tv(c.Not(c.Eq(x, y)))
	}
	if t.Signed {
		switch op {
		case token.LSS:
			return tv(c.Slt(x, y))
		case token.LEQ:
			return tv(c.Sle(x, y))
		case token.GTR:
			return tv(c.Slt(y, x))
		case token.GEQ:
			return tv(c.Sle(y, x))
		}
	}
	switch op {
	case token.LSS:
		return tv(c.Ult(x, y))
	case token.LEQ:
		return tv(c.Ule(x, y))
	case token.GTR:
		return tv(c.Ult(y, x))
	case token.GEQ:
		return tv(c.Ule(y, x))
	}
	m.unsupported("int operator %v", op)
	return V{}
}

func (m *M) floatop(op token.Token, t *TI, a, b V) V {
	if a.P != nil || b.P != nil {
		m.unsupported("symbolic floating point")
	}
	x, y := math.Float64frombits(a.U), math.Float64frombits(b.U)
	fl := func(f float64) V {
		if t.W == 32 {
			f = float64(float32(f))
		}
		return V{U: math.Float64bits(f)}
	}
	switch op {
	case token.ADD:
		return fl(x + y)
	case token.SUB:
		return fl(x - y)
	case token.MUL:
		return fl(x * y)
	case token.QUO:
		return fl(x / y)
	case token.EQL:
		return bv(x == y)
	case token.NEQ:
		return bv(x != y)
	case token.LSS:
		return bv(x < y)
	case token.LEQ:
		return bv(x <= y)
	case token.GTR:
		return bv(x > y)
	case token.GEQ:
		return bv(x >= y)
	}
	m.unsupported("float operator %v", op)
	return V{}
}

func (m *M) concat(a, b V) V {
	oa, isA := a.P.(*OStr)
	ob, isB := b.P.(*OStr)
	if isA || isB {
		if isA && oa.Force == nil {
			return a
		}
		if isB && ob.Force == nil {
			return b
		}
		return m.lazyStr("symbolic text", func() []V {
			return append(append([]V{}, m.textOf(a)...), m.textOf(b)...)
		})
	}
	if x, ok := concreteStr(a); ok {
		if y, ok := concreteStr(b); ok {
			return str(x + y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	e := make([]V, 0, len(x)+len(y))
	e = append(e, x...)
	e = append(e, y...)
	return mkStr(e)
}

func (m *M) strLess(a, b V) V {
	if x, ok := concreteStr(a); ok {
		if y, ok := concreteStr(b); ok {
			return bv(x < y)
		}
	}
	return m.bytesLess(strBytes(a), strBytes(b))
}

// bytesLess is the lexicographic order.
func (m *M) bytesLess(x, y []V) V {
	n := min(len(x), len(y))
	if n == 0 {
		return bv(len(x) < len(y))
	}
	p, q := m.catBytes(x[:n]), m.catBytes(y[:n])
	lt := m.c.Ult(p, q)
	if len(x) < len(y) {
		lt = m.c.Ule(p, q)
	}
	return tv(lt)
}

// bytesCmp is -1, 0 or 1.
func (m *M) bytesCmp(x, y []V) V {
	lt := m.bytesLess(x, y)
	if len(x) == len(y) {
		return m.ite(m.bytesEq(x, y), V{}, m.ite(lt, V{U: ^uint64(0)}, V{U: 1}, 64), 64)
	}
	gt := m.bytesLess(y, x)
	return m.ite(lt, V{U: ^uint64(0)}, m.ite(gt, V{U: 1}, V{}, 64), 64)
}

func (m *M) bytesEq(x, y []V) V {
	if len(x) != len(y) {
		return V{}
	}
	if len(x) == 0 {
		return V{U: 1}
	}
	sym := false
	for i := range x {
		if x[i].P == nil && y[i].P == nil {
			if x[i].U != y[i].U {
				return V{}
			}
		} else {
			sym = true
		}
	}
	if !sym {
		return V{U: 1}
	}
	return tv(m.c.Eq(m.catBytes(x), m.catBytes(y)))
}

// ite selects between two scalars of width w (0 for booleans).
func (m *M) ite(c, a, b V, w int) V {
	if c.P == nil {
		if c.U != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	return tv(m.c.Ite(c.P.(*smt.Term), m.term(a, w), m.term(b, w)))
}

func (m *M) eq2(t, t2 *TI, a, b V) V {
	if t.K == KIface && t2 != nil && t2.K != KIface {
		// comparison of interface with concrete value: operands were converted
		return m.eq(t2, a, b)
	}
	return m.eq(t, a, b)
}

// eq compares two values of type t.
func (m *M) eq(t *TI, a, b V) V {
	switch t.K {
	case KBool:
		return m.eqBool(a, b)
	case KInt:
		if a.P == nil && b.P == nil {
			return bv(a.U == b.U)
		}
		return tv(m.c.Eq(m.term(a, t.W), m.term(b, t.W)))
	case KFloat:
		return m.floatop(token.EQL, t, a, b)
	case KString:
		if x, ok := concreteStr(a); ok {
			if y, ok := concreteStr(b); ok {
				return bv(x == y)
			}
		}
		if a.P == b.P {
			return V{U: 1}
		}
		return m.bytesEq(strBytes(a), strBytes(b))
	case KArray:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		if t.Elem.K == KInt && t.Elem.W == 8 {
			return m.bytesEq(x, y)
		}
		r := V{U: 1}
		for i := range x {
			r = m.and(r, m.eq(t.Elem, x[i], y[i]))
			if r.P == nil && r.U == 0 {
				return r
			}
		}
		return r
	case KStruct:
		x, y := a.P.(*Agg).E, b.P.(*Agg).E
		r := V{U: 1}
		st := t.U.(*types.Struct)
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = m.and(r, m.eq(t.F[i], x[i], y[i]))
			if r.P == nil && r.U == 0 {
				return r
			}
		}
		return r
	case KIface:
		if a.P == nil || b.P == nil {
			return bv(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x == y && x.T.K != KSlice && x.T.K != KMap && x.T.K != KFunc {
			return V{U: 1}
		}
		if x.T != y.T {
			return V{}
		}
		switch x.T.K {
		case KSlice, KMap, KFunc:
			m.rtPanic("comparing uncomparable type " + x.T.T.String())
		}
		return m.eq(x.T, x.V, y.V)
	case KPtr, KChan, KMap, KUnsafe:
		if sa, ok := a.P.(*SPtr); ok {
			_ = sa
			m.unsupported("comparison of symbolic pointers")
		}
		return bv(a.P == b.P)
	case KSlice, KFunc:
		return bv(a.P == nil && b.P == nil)
	case KOpaque:
		if _, ok := a.P.(*smt.Term); ok {
			m.unsupported("comparison of opaque values")
		}
		return bv(a == b)
	}
	m.unsupported("comparison of %v", t.T)
	return V{}
}

// convert implements numeric and string conversions.
func (m *M) convert(from, to *TI, v V) V {
	switch {
	case from.K == KInt && to.K == KInt:
		if v.P == nil {
			if from.Signed {
				return V{U: uint64(sx(v.U, from.W)) & mask(to.W)}
			}
			return V{U: v.U & mask(to.W)}
		}
		t := v.P.(*smt.Term)
		switch {
		case to.W < from.W:
			return tv(m.c.Extract(t, to.W-1, 0))
		case to.W == from.W:
			return v
		case from.Signed:
			return tv(m.c.SExt(t, to.W))
		default:
			return tv(m.c.ZExt(t, to.W))
		}
	case from.K == KInt && to.K == KFloat:
		if v.P != nil {
			m.unsupported("symbolic integer to float")
		}
		var f float64
		if from.Signed {
			f = float64(sx(v.U, from.W))
		} else {
			f = float64(v.U)
		}
		if to.W == 32 {
			f = float64(float32(f))
		}
		return V{U: math.Float64bits(f)}
	case from.K == KFloat && to.K == KFloat:
		f := math.Float64frombits(v.U)
		if to.W == 32 {
			f = float64(float32(f))
		}
		return V{U: math.Float64bits(f)}
	case from.K == KFloat && to.K == KInt:
		f := math.Float64frombits(v.U)
		if to.Signed {
			return V{U: uint64(int64(f)) & mask(to.W)}
		}
		return V{U: uint64(f) & mask(to.W)}
	case from.K == KString && to.K == KString:
		return v
	case from.K == KString && to.K == KSlice:
		if to.Elem.W == 8 {
			b := strBytes(v)
			e := make([]V, len(b))
			copy(e, b)
			return newSlice(e)
		}
		var e []V
		m.runes(v, func(i int, r V) { e = append(e, r) })
		return newSlice(e)
	case from.K == KSlice && to.K == KString:
		if from.Elem.W == 8 {
			b := slElems(v)
			e := make([]V, len(b))
			copy(e, b)
			return mkStr(e)
		}
		var sb []V
		for _, r := range slElems(v) {
			sb = append(sb, m.runeBytes(r)...)
		}
		return mkStr(sb)
	case from.K == KInt && to.K == KString:
		return mkStr(m.runeBytes(v))
	case from.K == KUnsafe || to.K == KUnsafe:
		return v
	case from.K == to.K:
		return v
	}
	m.unsupported("conversion from %v to %v", from.T, to.T)
	return V{}
}

func (m *M) runeBytes(r V) []V {
	if r.P == nil {
		return bytesV([]byte(string(rune(sx(r.U, 32)))))
	}
	t := r.P.(*smt.Term)
	if t.W > 32 {
		t = m.c.Extract(t, 31, 0)
	}
	if !m.branch(tv(m.c.Ult(t, m.c.Const(t.W, 0x80)))) {
		m.unsupported("symbolic non-ASCII rune to text")
	}
	return []V{tv(m.c.Extract(t, 7, 0))}
}

// nextRune decodes one rune of a string at byte offset i.
func (m *M) nextRune(b []V, i int) (V, int) {
	x := b[i]
	if x.P == nil {
		// need up to 4 bytes; all concrete?
		n := i
		var bs []byte
		for n < len(b) && n < i+4 && b[n].P == nil {
			bs = append(bs, byte(b[n].U))
			n++
		}
		if bs[0] < 0x80 || utf8.FullRune(bs) || n == len(b) || n == i+4 {
			r, sz := utf8.DecodeRune(bs)
			return V{U: uint64(uint32(r))}, sz
		}
		return m.decodeMulti(b[i:])
	}
	t := x.P.(*smt.Term)
	if m.branch(tv(m.c.Ult(t, m.c.Const(8, 0x80)))) {
		return tv(m.c.ZExt(t, 32)), 1
	}
	// continuation or invalid lead bytes at the end of the text decode to RuneError
	if i == len(b)-1 {
		return V{U: uint64(utf8.RuneError)}, 1
	}
	return m.decodeMulti(b[i:])
}

// decodeMulti decodes a symbolic multi-byte sequence following utf8.DecodeRune.
func (m *M) decodeMulti(b []V) (V, int) {
	c := m.c
	t := func(i int) *smt.Term { return m.term(b[i], 8) }
	in := func(x *smt.Term, lo, hi uint64) V {
		return tv(c.And(c.Ule(c.Const(8, lo), x), c.Ule(x, c.Const(8, hi))))
	}
	bad := V{U: uint64(utf8.RuneError)}
	cont := func(i int) *smt.Term { return c.Extract(t(i), 5, 0) }
	b0 := t(0)
	switch {
	case m.branch(in(b0, 0xC2, 0xDF)):
		if !m.branch(in(t(1), 0x80, 0xBF)) {
			return bad, 1
		}
		return tv(c.ZExt(c.Concat(c.Extract(b0, 4, 0), cont(1)), 32)), 2
	case m.branch(in(b0, 0xE0, 0xEF)):
		lo := c.Ite(c.Eq(b0, c.Const(8, 0xE0)), c.Const(8, 0xA0), c.Const(8, 0x80))
		hi := c.Ite(c.Eq(b0, c.Const(8, 0xED)), c.Const(8, 0x9F), c.Const(8, 0xBF))
		if !m.branch(tv(c.And(c.Ule(lo, t(1)), c.Ule(t(1), hi)))) || len(b) < 3 || !m.branch(in(t(2), 0x80, 0xBF)) {
			return bad, 1
		}
		return tv(c.ZExt(c.Concat(c.Extract(b0, 3, 0), cont(1), cont(2)), 32)), 3
	case m.branch(in(b0, 0xF0, 0xF4)):
		lo := c.Ite(c.Eq(b0, c.Const(8, 0xF0)), c.Const(8, 0x90), c.Const(8, 0x80))
		hi := c.Ite(c.Eq(b0, c.Const(8, 0xF4)), c.Const(8, 0x8F), c.Const(8, 0xBF))
		if !m.branch(tv(c.And(c.Ule(lo, t(1)), c.Ule(t(1), hi)))) || len(b) < 4 || !m.branch(in(t(2), 0x80, 0xBF)) || !m.branch(in(t(3), 0x80, 0xBF)) {
			return bad, 1
		}
		return tv(c.ZExt(c.Concat(c.Extract(b0, 2, 0), cont(1), cont(2), cont(3)), 32)), 4
	}
	return bad, 1
}

func (m *M) runes(v V, f func(i int, r V)) {
	b := strBytes(v)
	for i := 0; i < len(b); {
		r, n := m.nextRune(b, i)
		f(i, r)
		i += n
	}
}

// index reads e[i] with a possibly symbolic index known to be in range.
func (m *M) selectElem(e []V, idx *smt.Term, t *TI) V {
	if (t.K != KInt && t.K != KBool) || len(e) > 600 {
		i := m.concIdx(idx)
		x := e[i]
		if t.agg() {
			x = copyV(x)
		}
		return x
	}
	w := t.W
	c := m.c
	// runs of equal or consecutive constants
	type run struct {
		lo, hi int
		v      *smt.Term
		step   bool
	}
	var runs []run
	iw := idx.W
	for i := 0; i < len(e); {
		j := i + 1
		if e[i].P == nil {
			for j < len(e) && e[j].P == nil && e[j].U == e[i].U {
				j++
			}
			if j == i+1 && w >= 8 {
				for j < len(e) && e[j].P == nil && e[j].U == e[i].U+uint64(j-i) {
					j++
				}
				if j > i+1 {
					// v = idx + (e[i]-i)
					var x *smt.Term
					if iw >= w {
						x = c.Extract(idx, w-1, 0)
					} else {
						x = c.ZExt(idx, w)
					}
					runs = append(runs, run{i, j - 1, c.Add(x, c.Const(w, e[i].U-uint64(i))), true})
					i = j
					continue
				}
			}
		} else {
			for j < len(e) && e[j].P == e[i].P {
				j++
			}
		}
		runs = append(runs, run{i, j - 1, m.term(e[i], w), false})
		i = j
	}
	// most frequent plain value as default
	best, bestN := -1, 0
	cnt := map[*smt.Term]int{}
	for k, r := range runs {
		cnt[r.v]++
		if cnt[r.v] > bestN {
			best, bestN = k, cnt[r.v]
		}
	}
	res := runs[best].v
	for k := len(runs) - 1; k >= 0; k-- {
		r := runs[k]
		if r.v == runs[best].v {
			continue
		}
		var cond *smt.Term
		switch {
		case r.lo == r.hi:
			cond = c.Eq(idx, c.Const(iw, uint64(r.lo)))
		default:
			cond = c.And(c.Ule(c.Const(iw, uint64(r.lo)), idx), c.Ule(idx, c.Const(iw, uint64(r.hi))))
		}
		res = c.Ite(cond, r.v, res)
	}
	return tv(res)
}

// boundsIdx checks idx against n; concrete results come back as an int.
func (m *M) boundsIdx(i V, t *TI, n int) (int, *smt.Term) {
	if i.P == nil {
		k := sx(i.U, t.W)
		if !t.Signed {
			k = int64(i.U)
			if i.U > 1<<62 {
				k = -1
			}
		}
		if k < 0 || k >= int64(n) {
			m.rtPanic("index out of range")
		}
		return int(k), nil
	}
	x := i.P.(*smt.Term)
	if x.W < 64 {
		if t.Signed {
			x = m.c.SExt(x, 64)
		} else {
			x = m.c.ZExt(x, 64)
		}
	}
	if !m.branch(tv(m.c.Ult(x, m.c.Const(64, uint64(n))))) {
		m.rtPanic("index out of range")
	}
	// narrow the index term
	w := 1
	for 1<<w < n {
		w++
	}
	x = m.c.Extract(x, w-1, 0)
	if x.IsConst() {
		return int(x.N), nil
	}
	return 0, x
}

func (m *M) concIdx(idx *smt.Term) int {
	return m.concretize(V{P: m.c.ZExt(idx, 64)}, 64)
}
