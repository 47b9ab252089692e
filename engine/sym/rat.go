package sym

import "math/big"

// SRat is a rational kept unnormalised; D is positive. Num and Denom of a
// value that is not known to be normalised are reduced with a symbolic gcd
// only when both are concrete.
type SRat struct {
	N, D V
	norm bool
}

var ratFns map[string]bigFn

func (m *M) rat(v V) *SRat {
	p := m.ptr(v)
	if r, ok := p.P.(*SRat); ok {
		return r
	}
	return &SRat{N: V{}, D: bigV(big.NewInt(1)), norm: true}
}

func (m *M) bigMulV(a, b V) V {
	x, y := V{P: new(V)}, V{P: new(V)}
	*x.P.(*V), *y.P.(*V) = a, b
	z := V{P: new(V)}
	bigFns["Mul"](m, []V{z, x, y})
	return *z.P.(*V)
}

func (m *M) bigAddV(a, b V) V {
	x, y := V{P: new(V)}, V{P: new(V)}
	*x.P.(*V), *y.P.(*V) = a, b
	z := V{P: new(V)}
	bigFns["Add"](m, []V{z, x, y})
	return *z.P.(*V)
}

// mkRat makes n/d with d possibly negative, not zero.
func (m *M) mkRat(n, d V) *SRat {
	a, ao := m.bigConst(n)
	b, bo := m.bigConst(d)
	if ao && bo {
		r := new(big.Rat).SetFrac(a, b)
		return &SRat{N: bigV(new(big.Int).Set(r.Num())), D: bigV(new(big.Int).Set(r.Denom())), norm: true}
	}
	neg, _ := m.bigSign(d)
	if m.branch(neg) {
		n, d = m.bigNeg(n), m.bigNeg(d)
	}
	if b, ok := m.bigConst(d); ok && b.IsInt64() && b.Int64() == 1 {
		return &SRat{N: n, D: d, norm: true}
	}
	return &SRat{N: n, D: d}
}

func (m *M) setRat(z V, r *SRat) V {
	m.set(m.ptr(z), V{P: r})
	return z
}

// reduce puts the rational into lowest terms: with gcd g of N and D. The gcd
// is encoded by Euclid's algorithm over the symbolic values, forking on the
// number of steps.
func (m *M) reduce(r *SRat) *SRat {
	if r.norm {
		return r
	}
	if d, ok := m.bigConst(r.D); ok && d.IsInt64() && d.Int64() <= 1<<20 {
		for g := d.Int64(); g >= 1; g-- {
			if d.Int64()%g != 0 {
				continue
			}
			q, rem := m.bigQuoRem(r.N, bigV(big.NewInt(g)))
			if _, z := m.bigSign(rem); m.branch(z) {
				return &SRat{N: q, D: bigV(big.NewInt(d.Int64() / g)), norm: true}
			}
		}
	}
	a, b := m.bigAbs(r.N), r.D
	for i := 0; ; i++ {
		_, z := m.bigSign(b)
		if m.branch(z) {
			break
		}
		if i > 200 {
			panic(abort{kind: "budget", msg: "gcd steps"})
		}
		_, rem := m.bigQuoRem(a, b)
		a, b = b, rem
	}
	n, _ := m.bigQuoRem(r.N, a)
	d, _ := m.bigQuoRem(r.D, a)
	return &SRat{N: n, D: d, norm: true}
}

func init() {
	one := func() V { return bigV(big.NewInt(1)) }
	fresh := func(v V) V { return V{P: &v} }
	divz := func(m *M) {
		panic(goPanic{v: m.mkPanicStr("division by zero"), msg: "division by zero"})
	}
	ratFns = map[string]bigFn{
		"SetFrac": func(m *M, a []V) V {
			_, z := m.bigSign(m.bigArg(a[2]))
			if m.branch(z) {
				divz(m)
			}
			return m.setRat(a[0], m.mkRat(m.bigArg(a[1]), m.bigArg(a[2])))
		},
		"SetFrac64": func(m *M, a []V) V {
			x := fresh(V{})
			y := fresh(V{})
			bigFns["SetInt64"](m, []V{x, a[1]})
			bigFns["SetInt64"](m, []V{y, a[2]})
			_, z := m.bigSign(m.bigArg(y))
			if m.branch(z) {
				divz(m)
			}
			return m.setRat(a[0], m.mkRat(m.bigArg(x), m.bigArg(y)))
		},
		"SetInt": func(m *M, a []V) V {
			return m.setRat(a[0], &SRat{N: m.bigArg(a[1]), D: one(), norm: true})
		},
		"SetInt64": func(m *M, a []V) V {
			x := fresh(V{})
			bigFns["SetInt64"](m, []V{x, a[1]})
			return m.setRat(a[0], &SRat{N: m.bigArg(x), D: one(), norm: true})
		},
		"SetUint64": func(m *M, a []V) V {
			x := fresh(V{})
			bigFns["SetUint64"](m, []V{x, a[1]})
			return m.setRat(a[0], &SRat{N: m.bigArg(x), D: one(), norm: true})
		},
		"Set": func(m *M, a []V) V { return m.setRat(a[0], m.rat(a[1])) },
		"Num": func(m *M, a []V) V {
			r := m.reduce(m.rat(a[0]))
			m.setRat(a[0], r)
			return fresh(r.N)
		},
		"Denom": func(m *M, a []V) V {
			r := m.reduce(m.rat(a[0]))
			m.setRat(a[0], r)
			return fresh(r.D)
		},
		"Sign": func(m *M, a []V) V {
			n, z := m.bigSign(m.rat(a[0]).N)
			return m.ite(n, V{U: ^uint64(0)}, m.ite(z, V{}, V{U: 1}, 64), 64)
		},
		"IsInt": func(m *M, a []V) V {
			r := m.rat(a[0])
			_, rem := m.bigQuoRem(r.N, r.D)
			_, z := m.bigSign(rem)
			return z
		},
		"Cmp": func(m *M, a []V) V {
			x, y := m.rat(a[0]), m.rat(a[1])
			return m.bigCmp(m.bigMulV(x.N, y.D), m.bigMulV(y.N, x.D))
		},
		"Neg": func(m *M, a []V) V {
			x := m.rat(a[1])
			return m.setRat(a[0], &SRat{N: m.bigNeg(x.N), D: x.D, norm: x.norm})
		},
		"Abs": func(m *M, a []V) V {
			x := m.rat(a[1])
			return m.setRat(a[0], &SRat{N: m.bigAbs(x.N), D: x.D, norm: x.norm})
		},
		"Inv": func(m *M, a []V) V {
			x := m.rat(a[1])
			_, z := m.bigSign(x.N)
			if m.branch(z) {
				divz(m)
			}
			return m.setRat(a[0], m.mkRat(x.D, x.N))
		},
		"Mul": func(m *M, a []V) V {
			x, y := m.rat(a[1]), m.rat(a[2])
			return m.setRat(a[0], m.mkRat(m.bigMulV(x.N, y.N), m.bigMulV(x.D, y.D)))
		},
		"Quo": func(m *M, a []V) V {
			x, y := m.rat(a[1]), m.rat(a[2])
			_, z := m.bigSign(y.N)
			if m.branch(z) {
				divz(m)
			}
			return m.setRat(a[0], m.mkRat(m.bigMulV(x.N, y.D), m.bigMulV(x.D, y.N)))
		},
		"Add": func(m *M, a []V) V {
			x, y := m.rat(a[1]), m.rat(a[2])
			return m.setRat(a[0], m.mkRat(m.bigAddV(m.bigMulV(x.N, y.D), m.bigMulV(y.N, x.D)), m.bigMulV(x.D, y.D)))
		},
		"Sub": func(m *M, a []V) V {
			x, y := m.rat(a[1]), m.rat(a[2])
			return m.setRat(a[0], m.mkRat(m.bigAddV(m.bigMulV(x.N, y.D), m.bigNeg(m.bigMulV(y.N, x.D))), m.bigMulV(x.D, y.D)))
		},
	}
	natives["math/big.NewRat"] = func(m *M, fr *frame, a []V) V {
		return ratFns["SetFrac64"](m, []V{fresh(V{}), a[0], a[1]})
	}
}
