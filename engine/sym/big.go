package sym

import (
	"math/big"

	"verif/engine/smt"
)

// A *big.Int is a pointer to an opaque slot: nil (zero), *big.Int (concrete,
// never modified) or *SBig.

func (m *M) bigConst(v V) (*big.Int, bool) {
	switch x := v.P.(type) {
	case nil:
		return new(big.Int), true
	case *big.Int:
		return x, true
	}
	return nil, false
}

func bigV(b *big.Int) V {
	return V{P: b}
}

func signedW(b *big.Int) int {
	if b.Sign() >= 0 {
		return b.BitLen() + 1
	}
	return new(big.Int).Not(b).BitLen() + 1
}

func (m *M) bigTerm(v V) *smt.Term {
	if b, ok := m.bigConst(v); ok {
		return m.c.BigConst(signedW(b), b)
	}
	return v.P.(*SBig).T
}

// sbig makes a value of a signed term, dropping redundant sign bits.
func (m *M) sbig(t *smt.Term) V {
	if t.IsConst() {
		v := new(big.Int).Set(t.Val())
		if v.Bit(t.W-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.W)))
		}
		return bigV(v)
	}
	// strip known leading zeros
	lz := m.c.LeadZeros(t)
	if lz > 1 {
		t = m.c.Extract(t, t.W-lz, 0)
	} else if t.Op == smt.OSExt {
		t = t.A[0]
	}
	if t.W > m.cfg.MaxBig {
		panic(abort{kind: "budget", msg: "integer wider than the bound at " + m.where()})
	}
	return V{P: &SBig{t}}
}

func (m *M) ubig(t *smt.Term) V { return m.sbig(m.c.ZExt(t, t.W+1)) }

func (m *M) bigArg(v V) V { return *m.ptr(v) }

func (m *M) wide2(a, b V, extra int) (*smt.Term, *smt.Term, int) {
	x, y := m.bigTerm(a), m.bigTerm(b)
	w := max(x.W, y.W) + extra
	return m.c.SExt(x, w), m.c.SExt(y, w), w
}

func (m *M) bigSign(v V) (neg, zero V) {
	if b, ok := m.bigConst(v); ok {
		return bv(b.Sign() < 0), bv(b.Sign() == 0)
	}
	t := m.bigTerm(v)
	return tv(m.c.Slt(t, m.c.Const(t.W, 0))), tv(m.c.Eq(t, m.c.BigConst(t.W, new(big.Int))))
}

func (m *M) bigAbs(v V) V {
	if b, ok := m.bigConst(v); ok {
		return bigV(new(big.Int).Abs(b))
	}
	t := m.bigTerm(v)
	w := t.W + 1
	x := m.c.SExt(t, w)
	return m.sbig(m.c.Ite(m.c.Slt(x, m.c.BigConst(w, new(big.Int))), m.c.Neg(x), x))
}

func (m *M) bigNeg(v V) V {
	if b, ok := m.bigConst(v); ok {
		return bigV(new(big.Int).Neg(b))
	}
	t := m.bigTerm(v)
	return m.sbig(m.c.Neg(m.c.SExt(t, t.W+1)))
}

func (m *M) bigCmp(a, b V) V {
	x, xo := m.bigConst(a)
	y, yo := m.bigConst(b)
	if xo && yo {
		return V{U: uint64(int64(x.Cmp(y)))}
	}
	p, q, _ := m.wide2(a, b, 0)
	return m.ite(tv(m.c.Slt(p, q)), V{U: ^uint64(0)}, m.ite(tv(m.c.Eq(p, q)), V{}, V{U: 1}, 64), 64)
}

// bigLen is the bit length as a 64-bit value.
func (m *M) bigLen(v V) V {
	if b, ok := m.bigConst(v); ok {
		return iv(b.BitLen())
	}
	a := m.bigTerm(m.bigAbs(v))
	r := m.c.Const(64, 0)
	for i := 0; i < a.W; i++ {
		bit := m.c.Eq(m.c.Extract(a, i, i), m.c.Const(1, 1))
		r = m.c.Ite(bit, m.c.Const(64, uint64(i+1)), r)
	}
	return tv(r)
}

// bigByteLen enumerates the byte length of |v|.
func (m *M) bigByteLen(v V) int {
	if b, ok := m.bigConst(v); ok {
		return (b.BitLen() + 7) / 8
	}
	a := m.bigTerm(m.bigAbs(v))
	n := (a.W + 7) / 8
	for k := 0; k < n; k++ {
		if 8*k >= a.W {
			return k
		}
		if m.branch(tv(m.c.Eq(m.c.Extract(a, a.W-1, 8*k), m.c.BigConst(a.W-8*k, new(big.Int))))) {
			return k
		}
	}
	return n
}

func (m *M) bigBytes(v V, n int) []V {
	if b, ok := m.bigConst(v); ok {
		bs := new(big.Int).Abs(b).Bytes()
		if len(bs) > n {
			bs = bs[len(bs)-n:]
		}
		out := make([]V, n-len(bs))
		return append(out, bytesV(bs)...)
	}
	if n == 0 {
		return nil
	}
	a := m.bigTerm(m.bigAbs(v))
	if a.W < 8*n {
		a = m.c.ZExt(a, 8*n)
	} else {
		a = m.c.Extract(a, 8*n-1, 0)
	}
	return m.splitBytes(a)
}

func (m *M) bigFromBytes(b []V) V {
	if bs, ok := concreteBytes(b); ok {
		return bigV(new(big.Int).SetBytes(bs))
	}
	return m.ubig(m.catBytes(b))
}

// fits tells whether v lies in the signed/unsigned 64-bit range.
func (m *M) bigFits(v V, signed bool) V {
	if b, ok := m.bigConst(v); ok {
		if signed {
			return bv(b.IsInt64())
		}
		return bv(b.IsUint64())
	}
	t := m.bigTerm(v)
	if signed {
		if t.W <= 64 {
			return V{U: 1}
		}
		lo := m.c.SExt(m.c.Extract(t, 63, 0), t.W)
		return tv(m.c.Eq(lo, t))
	}
	if t.W <= 65 {
		return tv(m.c.Not(m.c.Slt(t, m.c.BigConst(t.W, new(big.Int)))))
	}
	return tv(m.c.Eq(m.c.Extract(t, t.W-1, 64), m.c.BigConst(t.W-64, new(big.Int))))
}

func (m *M) bigLow64(v V) V {
	if b, ok := m.bigConst(v); ok {
		x := new(big.Int).And(b, new(big.Int).SetUint64(^uint64(0)))
		return V{U: x.Uint64()}
	}
	t := m.bigTerm(v)
	if t.W < 64 {
		return tv(m.c.SExt(t, 64))
	}
	return tv(m.c.Extract(t, 63, 0))
}

// quoRem truncated division; the divisor is known to be non-zero.
func (m *M) bigQuoRem(a, b V) (V, V) {
	x, xo := m.bigConst(a)
	y, yo := m.bigConst(b)
	if xo && yo {
		q, r := new(big.Int).QuoRem(x, y, new(big.Int))
		return bigV(q), bigV(r)
	}
	if yo {
		return m.bigQuoRemC(a, y)
	}
	p, q, _ := m.wide2(a, b, 1)
	return m.sbig(m.c.SDiv(p, q)), m.sbig(m.c.SRem(p, q))
}

// bigQuoRemC divides by a constant, through magnitudes.
func (m *M) bigQuoRemC(a V, y *big.Int) (V, V) {
	c := m.c
	t := m.bigTerm(a)
	d := new(big.Int).Abs(y)
	w := max(t.W, d.BitLen()) + 1
	x, zero := c.SExt(t, w), c.BigConst(w, new(big.Int))
	neg := c.Slt(x, zero)
	abs := c.Ite(neg, c.Neg(x), x)
	dc := c.BigConst(w, d)
	q, r := c.UDiv(abs, dc), c.URem(abs, dc)
	qneg := neg
	if y.Sign() < 0 {
		qneg = c.Not(neg)
	}
	return m.sbig(c.Ite(qneg, c.Neg(q), q)), m.sbig(c.Ite(neg, c.Neg(r), r))
}

// divMod Euclidean division.
func (m *M) bigDivMod(a, b V) (V, V) {
	x, xo := m.bigConst(a)
	y, yo := m.bigConst(b)
	if xo && yo {
		q, r := new(big.Int).DivMod(x, y, new(big.Int))
		return bigV(q), bigV(r)
	}
	c := m.c
	if yo && y.Sign() > 0 { // floor((-n)/d) = -(ceil(n/d))
		t := m.bigTerm(a)
		w := max(t.W, y.BitLen()) + 2
		x, zero := c.SExt(t, w), c.BigConst(w, new(big.Int))
		neg := c.Slt(x, zero)
		abs := c.Ite(neg, c.Neg(x), x)
		dc := c.BigConst(w, y)
		q, r := c.UDiv(abs, dc), c.URem(abs, dc)
		one := c.BigConst(w, big.NewInt(1))
		rz := c.Eq(r, zero)
		return m.sbig(c.Ite(neg, c.Ite(rz, c.Neg(q), c.Neg(c.Add(q, one))), q)), m.sbig(c.Ite(neg, c.Ite(rz, r, c.Sub(dc, r)), r))
	}
	p, q, w := m.wide2(a, b, 2)
	d, r := c.SDiv(p, q), c.SRem(p, q)
	zero := c.BigConst(w, new(big.Int))
	one := c.BigConst(w, big.NewInt(1))
	rneg := c.Slt(r, zero)
	qneg := c.Slt(q, zero)
	dd := c.Ite(rneg, c.Ite(qneg, c.Add(d, one), c.Sub(d, one)), d)
	rr := c.Ite(rneg, c.Ite(qneg, c.Sub(r, q), c.Add(r, q)), r)
	return m.sbig(dd), m.sbig(rr)
}

func (m *M) bigDivCheck(b V) {
	_, z := m.bigSign(b)
	if m.branch(z) {
		panic(goPanic{v: m.mkPanicStr("division by zero"), msg: "division by zero"})
	}
}

type bigFn func(m *M, a []V) V

var bigFns map[string]bigFn

func b2(f func(z, x, y *big.Int) *big.Int, g func(c *smt.Ctx, x, y *smt.Term) *smt.Term, w func(x, y int) int) bigFn {
	return func(m *M, a []V) V {
		x, y := m.bigArg(a[1]), m.bigArg(a[2])
		p, po := m.bigConst(x)
		q, qo := m.bigConst(y)
		if po && qo {
			m.set(m.ptr(a[0]), bigV(f(new(big.Int), p, q)))
			return a[0]
		}
		s, t := m.bigTerm(x), m.bigTerm(y)
		n := w(s.W, t.W)
		m.set(m.ptr(a[0]), m.sbig(g(m.c, m.c.SExt(s, n), m.c.SExt(t, n))))
		return a[0]
	}
}

func maxPlus(k int) func(x, y int) int { return func(x, y int) int { return max(x, y) + k } }

func init() {
	bigFns = map[string]bigFn{
		"Add":    b2((*big.Int).Add, (*smt.Ctx).Add, maxPlus(1)),
		"Sub":    b2((*big.Int).Sub, (*smt.Ctx).Sub, maxPlus(1)),
		"Mul":    b2((*big.Int).Mul, (*smt.Ctx).Mul, func(x, y int) int { return x + y }),
		"And":    b2((*big.Int).And, (*smt.Ctx).BAnd, maxPlus(0)),
		"Or":     b2((*big.Int).Or, (*smt.Ctx).BOr, maxPlus(0)),
		"Xor":    b2((*big.Int).Xor, (*smt.Ctx).BXor, maxPlus(0)),
		"AndNot": b2((*big.Int).AndNot, func(c *smt.Ctx, x, y *smt.Term) *smt.Term { return c.BAnd(x, c.BNot(y)) }, maxPlus(0)),
		"Not": func(m *M, a []V) V {
			x := m.bigArg(a[1])
			if b, ok := m.bigConst(x); ok {
				m.set(m.ptr(a[0]), bigV(new(big.Int).Not(b)))
			} else {
				m.set(m.ptr(a[0]), m.sbig(m.c.BNot(m.bigTerm(x))))
			}
			return a[0]
		},
		"Set": func(m *M, a []V) V { m.set(m.ptr(a[0]), m.bigArg(a[1])); return a[0] },
		"Neg": func(m *M, a []V) V { m.set(m.ptr(a[0]), m.bigNeg(m.bigArg(a[1]))); return a[0] },
		"Abs": func(m *M, a []V) V { m.set(m.ptr(a[0]), m.bigAbs(m.bigArg(a[1]))); return a[0] },
		"SetInt64": func(m *M, a []V) V {
			if a[1].P == nil {
				m.set(m.ptr(a[0]), bigV(big.NewInt(int64(a[1].U))))
			} else {
				m.set(m.ptr(a[0]), m.sbig(a[1].P.(*smt.Term)))
			}
			return a[0]
		},
		"SetUint64": func(m *M, a []V) V {
			if a[1].P == nil {
				m.set(m.ptr(a[0]), bigV(new(big.Int).SetUint64(a[1].U)))
			} else {
				m.set(m.ptr(a[0]), m.ubig(a[1].P.(*smt.Term)))
			}
			return a[0]
		},
		"SetBytes": func(m *M, a []V) V { m.set(m.ptr(a[0]), m.bigFromBytes(slElems(a[1]))); return a[0] },
		"Bytes": func(m *M, a []V) V {
			v := m.bigArg(a[0])
			n := m.bigByteLen(v)
			return newSlice(m.bigBytes(v, n))
		},
		"FillBytes": func(m *M, a []V) V {
			v := m.bigArg(a[0])
			buf := slElems(a[1])
			l := m.bigLen(v)
			over := m.binop(tokGTR, m.tInt(), m.tInt(), l, iv(8*len(buf)))
			if m.branch(over) {
				panic(goPanic{v: m.mkPanicStr("math/big: buffer too small to fit value"), msg: "math/big: buffer too small to fit value"})
			}
			m.copyElems(buf, m.bigBytes(v, len(buf)))
			return a[1]
		},
		"Sign": func(m *M, a []V) V {
			neg, zero := m.bigSign(m.bigArg(a[0]))
			return m.ite(neg, V{U: ^uint64(0)}, m.ite(zero, V{}, V{U: 1}, 64), 64)
		},
		"Cmp":      func(m *M, a []V) V { return m.bigCmp(m.bigArg(a[0]), m.bigArg(a[1])) },
		"CmpAbs":   func(m *M, a []V) V { return m.bigCmp(m.bigAbs(m.bigArg(a[0])), m.bigAbs(m.bigArg(a[1]))) },
		"BitLen":   func(m *M, a []V) V { return m.bigLen(m.bigArg(a[0])) },
		"IsInt64":  func(m *M, a []V) V { return m.bigFits(m.bigArg(a[0]), true) },
		"IsUint64": func(m *M, a []V) V { return m.bigFits(m.bigArg(a[0]), false) },
		"Int64":    func(m *M, a []V) V { return m.bigLow64(m.bigArg(a[0])) },
		"Uint64":   func(m *M, a []V) V { return m.bigLow64(m.bigArg(a[0])) },
		"Quo": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			q, _ := m.bigQuoRem(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), q)
			return a[0]
		},
		"Rem": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			_, r := m.bigQuoRem(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), r)
			return a[0]
		},
		"QuoRem": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			q, r := m.bigQuoRem(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), q)
			m.set(m.ptr(a[3]), r)
			return V{P: Tuple{a[0], a[3]}}
		},
		"Div": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			q, _ := m.bigDivMod(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), q)
			return a[0]
		},
		"Mod": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			_, r := m.bigDivMod(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), r)
			return a[0]
		},
		"DivMod": func(m *M, a []V) V {
			m.bigDivCheck(m.bigArg(a[2]))
			q, r := m.bigDivMod(m.bigArg(a[1]), m.bigArg(a[2]))
			m.set(m.ptr(a[0]), q)
			m.set(m.ptr(a[3]), r)
			return V{P: Tuple{a[0], a[3]}}
		},
		"Lsh": func(m *M, a []V) V {
			n := m.concretize(a[2], 64)
			x := m.bigArg(a[1])
			if b, ok := m.bigConst(x); ok {
				m.set(m.ptr(a[0]), bigV(new(big.Int).Lsh(b, uint(n))))
			} else {
				t := m.bigTerm(x)
				if n > 0 {
					t = m.c.Concat(t, m.c.BigConst(n, new(big.Int)))
				}
				m.set(m.ptr(a[0]), m.sbig(t))
			}
			return a[0]
		},
		"Rsh": func(m *M, a []V) V {
			n := m.concretize(a[2], 64)
			x := m.bigArg(a[1])
			if b, ok := m.bigConst(x); ok {
				m.set(m.ptr(a[0]), bigV(new(big.Int).Rsh(b, uint(n))))
			} else {
				t := m.bigTerm(x)
				if n >= t.W {
					n = t.W - 1
				}
				m.set(m.ptr(a[0]), m.sbig(m.c.Extract(t, t.W-1, n)))
			}
			return a[0]
		},
		"Bit": func(m *M, a []V) V {
			x := m.bigArg(a[0])
			i := m.concretize(a[1], 64)
			if b, ok := m.bigConst(x); ok {
				return V{U: uint64(b.Bit(i))}
			}
			t := m.bigTerm(x)
			if i >= t.W {
				i = t.W - 1
			}
			return tv(m.c.ZExt(m.c.Extract(t, i, i), 64))
		},
		"Bits": func(m *M, a []V) V {
			v := m.bigArg(a[0])
			n := m.bigByteLen(v)
			w := (n + 7) / 8
			bs := m.bigBytes(v, 8*w)
			e := make([]V, w)
			for i := 0; i < w; i++ {
				p := bs[8*(w-1-i) : 8*(w-i)]
				if c, ok := concreteBytes(p); ok {
					e[i] = V{U: new(big.Int).SetBytes(c).Uint64()}
				} else {
					e[i] = tv(m.catBytes(p))
				}
			}
			if w == 0 {
				return V{}
			}
			return newSlice(e)
		},
		"SetBits": func(m *M, a []V) V {
			e := slElems(a[1])
			var ts []*smt.Term
			for i := len(e) - 1; i >= 0; i-- {
				ts = append(ts, m.term(e[i], 64))
			}
			if len(ts) == 0 {
				m.set(m.ptr(a[0]), V{})
			} else {
				m.set(m.ptr(a[0]), m.ubig(m.c.Concat(ts...)))
			}
			return a[0]
		},
		"SetBit": func(m *M, a []V) V {
			x, ok := m.bigConst(m.bigArg(a[1]))
			if !ok || a[3].P != nil {
				i := m.concretize(a[2], 64)
				if i < 0 {
					panic(goPanic{v: m.mkPanicStr("negative bit index"), msg: "negative bit index"})
				}
				c := m.c
				t := m.bigTerm(m.bigArg(a[1]))
				w := max(t.W, i+2)
				t = c.SExt(t, w)
				one := c.BigConst(w, new(big.Int).Lsh(big.NewInt(1), uint(i)))
				set, clr := c.BOr(t, one), c.BAnd(t, c.BNot(one))
				b := m.c.Eq(m.c.Extract(m.term(a[3], 64), 0, 0), c.Const(1, 1))
				m.set(m.ptr(a[0]), m.sbig(c.Ite(b, set, clr)))
				return a[0]
			}
			m.set(m.ptr(a[0]), bigV(new(big.Int).SetBit(x, m.concretize(a[2], 64), uint(a[3].U))))
			return a[0]
		},
		"SetString": func(m *M, a []V) V {
			base := m.concretize(a[2], 64)
			if s, ok := concreteStr(a[1]); ok {
				b, ok := new(big.Int).SetString(s, base)
				if !ok {
					return V{P: Tuple{V{}, V{}}}
				}
				m.set(m.ptr(a[0]), bigV(b))
				return V{P: Tuple{a[0], V{U: 1}}}
			}
			return m.bigSetString(a[0], strBytes(a[1]), base)
		},
		"Text": func(m *M, a []V) V {
			if a[0].P == nil {
				return str("<nil>")
			}
			base := m.concretize(a[1], 64)
			return m.bigText(m.bigArg(a[0]), base)
		},
		"String": func(m *M, a []V) V {
			if a[0].P == nil {
				return str("<nil>")
			}
			return m.bigText(m.bigArg(a[0]), 10)
		},
		"Append": func(m *M, a []V) V {
			s := str("<nil>")
			if a[0].P != nil {
				s = m.bigText(m.bigArg(a[0]), m.concretize(a[2], 64))
			}
			return m.appendElems(a[1], strBytes(s), m.ti(tUint8))
		},
		"MarshalText": func(m *M, a []V) V {
			s := str("<nil>")
			if a[0].P != nil {
				s = m.bigText(m.bigArg(a[0]), 10)
			}
			return V{P: Tuple{newSlice(append([]V{}, strBytes(s)...)), V{}}}
		},
		"Exp": func(m *M, a []V) V {
			x, y := m.bigArg(a[1]), m.bigArg(a[2])
			e, ok := m.bigConst(y)
			if !ok {
				m.unsupported("big.Int.Exp with symbolic exponent")
			}
			var md V
			hasMod := a[3].P != nil
			if hasMod {
				md = m.bigArg(a[3])
				if b, ok := m.bigConst(md); ok && b.Sign() == 0 {
					hasMod = false
				}
			}
			b, bo := m.bigConst(x)
			mb, mo := m.bigConst(md)
			if bo && (mo || !hasMod) {
				if !hasMod {
					mb = nil
				}
				r := new(big.Int).Exp(b, e, mb)
				if r == nil {
					return V{}
				}
				m.set(m.ptr(a[0]), bigV(r))
				return a[0]
			}
			if e.Sign() < 0 || e.BitLen() > 16 {
				m.unsupported("big.Int.Exp with symbolic base and large exponent")
			}
			r := bigV(big.NewInt(1))
			mul := func(p, q V) V {
				s, t := m.bigTerm(p), m.bigTerm(q)
				n := s.W + t.W
				z := m.sbig(m.c.Mul(m.c.SExt(s, n), m.c.SExt(t, n)))
				if hasMod {
					_, z = m.bigDivMod(z, md)
				}
				return z
			}
			for i := e.BitLen() - 1; i >= 0; i-- {
				r = mul(r, r)
				if e.Bit(i) == 1 {
					r = mul(r, x)
				}
			}
			m.set(m.ptr(a[0]), r)
			return a[0]
		},
		"ProbablyPrime": conc1(func(b *big.Int) V { return bv(b.ProbablyPrime(10)) }),
		"TrailingZeroBits": func(m *M, a []V) V {
			v := m.bigArg(a[0])
			if b, ok := m.bigConst(v); ok {
				return iv(int(b.TrailingZeroBits()))
			}
			t := m.bigTerm(v)
			r := m.c.Const(64, 0)
			for i := t.W - 1; i >= 0; i-- {
				r = m.c.Ite(m.c.Eq(m.c.Extract(t, i, i), m.c.Const(1, 1)), m.c.Const(64, uint64(i)), r)
			}
			return tv(r)
		},
		"Sqrt": func(m *M, a []V) V {
			b, ok := m.bigConst(m.bigArg(a[1]))
			if !ok {
				m.unsupported("big.Int.Sqrt symbolic")
			}
			m.set(m.ptr(a[0]), bigV(new(big.Int).Sqrt(b)))
			return a[0]
		},
		"GCD": func(m *M, a []V) V {
			x, ok1 := m.bigConst(m.bigArg(a[3]))
			y, ok2 := m.bigConst(m.bigArg(a[4]))
			if !ok1 || !ok2 || a[1].P != nil || a[2].P != nil {
				m.unsupported("big.Int.GCD symbolic")
			}
			m.set(m.ptr(a[0]), bigV(new(big.Int).GCD(nil, nil, x, y)))
			return a[0]
		},
	}
}

func conc1(f func(b *big.Int) V) bigFn {
	return func(m *M, a []V) V {
		b, ok := m.bigConst(m.bigArg(a[0]))
		if !ok {
			m.unsupported("big.Int operation on symbolic value")
		}
		return f(b)
	}
}

// bigText renders in a power-of-two base symbolically; other bases by digits.
func (m *M) bigText(v V, base int) V {
	if b, ok := m.bigConst(v); ok {
		return str(b.Text(base))
	}
	neg, _ := m.bigSign(v)
	isNeg := m.branch(neg)
	abs := m.bigTerm(m.bigAbs(v))
	c := m.c
	digit := func(d *smt.Term) V { // 8 bits wide
		return tv(c.Ite(c.Ult(d, c.Const(8, 10)), c.Add(d, c.Const(8, '0')), c.Add(d, c.Const(8, 'a'-10))))
	}
	var ds []V
	switch base {
	case 2, 4, 16:
		k := map[int]int{2: 1, 4: 2, 16: 4}[base]
		n := (abs.W + k - 1) / k
		x := c.ZExt(abs, n*k)
		cnt := n
		for i := 1; i < n; i++ {
			if m.branch(tv(c.Eq(c.Extract(x, n*k-1, i*k), c.BigConst(n*k-i*k, new(big.Int))))) {
				cnt = i
				break
			}
		}
		for i := cnt - 1; i >= 0; i-- {
			ds = append(ds, digit(c.ZExt(c.Extract(x, i*k+k-1, i*k), 8)))
		}
	case 10:
		maxv := new(big.Int).Lsh(big.NewInt(1), uint(abs.W))
		n := len(maxv.String())
		w := max(abs.W, signedW(maxv)) + 4
		x := c.ZExt(abs, w)
		cnt := n
		p := big.NewInt(10)
		for i := 1; i < n; i++ {
			if m.branch(tv(c.Ult(x, c.BigConst(w, p)))) {
				cnt = i
				break
			}
			p = new(big.Int).Mul(p, big.NewInt(10))
		}
		ten := c.BigConst(w, big.NewInt(10))
		for i := 0; i < cnt; i++ {
			d := c.Extract(c.URem(x, ten), 7, 0)
			ds = append([]V{tv(c.Add(d, c.Const(8, '0')))}, ds...)
			x = c.UDiv(x, ten)
		}
	default:
		m.unsupported("text of symbolic integer in base %d", base)
	}
	if isNeg {
		ds = append([]V{{U: '-'}}, ds...)
	}
	return mkStr(ds)
}

// bigSetString parses symbolic digits following big.Int.SetString.
func (m *M) bigSetString(z V, s []V, base int) V {
	fail := V{P: Tuple{V{}, V{}}}
	c := m.c
	i := 0
	is := func(v V, ch byte) bool {
		return m.branch(m.eq(m.ti(tUint8), v, V{U: uint64(ch)}))
	}
	if len(s) == 0 {
		return fail
	}
	neg := false
	if is(s[0], '-') {
		neg = true
		i++
	} else if is(s[0], '+') {
		i++
	}
	if base == 0 {
		m.unsupported("SetString with base 0 on symbolic text")
	}
	if i >= len(s) {
		return fail
	}
	w := 8*len(s) + 8
	acc := c.BigConst(w, new(big.Int))
	bb := c.BigConst(w, big.NewInt(int64(base)))
	for ; i < len(s); i++ {
		ch := m.term(s[i], 8)
		in := func(lo, hi byte) *smt.Term {
			return c.And(c.Ule(c.Const(8, uint64(lo)), ch), c.Ule(ch, c.Const(8, uint64(hi))))
		}
		isD := in('0', '9')
		isL, isU := c.False, c.False
		if base > 10 {
			isL, isU = in('a', byte('a'+base-11)), in('A', byte('A'+base-11))
		} else if base < 10 {
			isD = in('0', byte('0'+base-1))
		}
		if base > 36 {
			m.unsupported("base")
		}
		if !m.branch(tv(c.Or(isD, isL, isU))) {
			return fail
		}
		d := c.Ite(isD, c.Sub(ch, c.Const(8, '0')), c.Ite(isL, c.Sub(ch, c.Const(8, 'a'-10)), c.Sub(ch, c.Const(8, 'A'-10))))
		if base == 16 {
			acc = c.BOr(c.ShlC(acc, 4), c.ZExt(d, w))
		} else {
			acc = c.Add(c.Mul(acc, bb), c.ZExt(d, w))
		}
	}
	v := m.ubig(acc)
	if neg {
		v = m.bigNeg(v)
	}
	m.set(m.ptr(z), v)
	return V{P: Tuple{z, V{U: 1}}}
}
