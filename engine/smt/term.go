// Package smt holds hash-consed bit-vector terms with a simplifier, and the
// interface to the SMT solver processes.
package smt

import (
	"fmt"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // boolean
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OSExt
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

// Term is a bit-vector (W>0) or boolean (W==0) term. Terms of one Ctx are
// hash-consed: equal structure means equal pointer.
type Term struct {
	Op   Op
	W    int
	A    []*Term
	N    uint64 // constant value (W<=64); Extract: lo
	Big  *big.Int
	Name string
	ID   int
	// Tag carries engine data for variables (hash outputs).
	Tag any
	// hasDiv: the term contains a division by a constant that the solver is
	// given as an unknown with its defining constraint (see DivAxioms).
	hasDiv bool
	// quo is the quotient that belongs to such a remainder.
	quo *Term
}

const divDefW = 12 // divisions by a constant of at least this width are defined by constraints

func (t *Term) divDef() bool {
	return (t.Op == OUDiv || t.Op == OURem) && t.W >= divDefW && t.A[1].Op == OConst && !t.A[1].isZero()
}

// DivAxioms returns the constraints that define the quotients in t:
// q <= max/d, q*d <= a and a-q*d < d make q*d+r = a with r < d without overflow.
func (c *Ctx) DivAxioms(t *Term) []*Term {
	if !t.hasDiv {
		return nil
	}
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.hasDiv || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.A {
			walk(a)
		}
		if t.quo != nil {
			walk(t.quo)
		}
		if t.Op == OUDiv && t.divDef() {
			top := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(t.W)), big.NewInt(1))
			top.Div(top, t.A[1].Val())
			p := c.Mul(t, t.A[1])
			out = append(out, c.node(OUle, 0, 0, t, c.BigConst(t.W, top)), c.node(OUle, 0, 0, p, t.A[0]), c.node(OUlt, 0, 0, c.node(OSub, t.W, 0, t.A[0], p), t.A[1]))
		}
	}
	walk(t)
	return out
}

type key struct {
	op      Op
	w       int
	a, b, c int
	n       uint64
	s       string
}

type Ctx struct {
	tab   map[key]*Term
	next  int
	True  *Term
	False *Term
	// EqHook, when set, may rewrite an equality between two bit-vectors
	// (used for ideal hashing). It returns nil to decline.
	EqHook func(a, b *Term) *Term
	small  [65][]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[key]*Term{}}
	c.True = c.mk(key{op: OConst, n: 1}, &Term{Op: OConst, N: 1})
	c.False = c.mk(key{op: OConst, n: 0}, &Term{Op: OConst, N: 0})
	return c
}

func (c *Ctx) NumTerms() int { return len(c.tab) }

func (c *Ctx) mk(k key, t *Term) *Term {
	if x, ok := c.tab[k]; ok {
		return x
	}
	c.next++
	t.ID = c.next
	c.tab[k] = t
	return t
}

func (c *Ctx) node(op Op, w int, n uint64, a ...*Term) *Term {
	k := key{op: op, w: w, n: n}
	switch len(a) {
	case 1:
		k.a = a[0].ID
	case 2:
		k.a, k.b = a[0].ID, a[1].ID
	case 3:
		k.a, k.b, k.c = a[0].ID, a[1].ID, a[2].ID
	default:
		var sb strings.Builder
		for _, x := range a {
			sb.WriteString(strconv.Itoa(x.ID))
			sb.WriteByte(',')
		}
		k.s = sb.String()
	}
	if x, ok := c.tab[k]; ok {
		return x
	}
	t := &Term{Op: op, W: w, N: n, A: a}
	t.hasDiv = (op == OUDiv || op == OURem) && t.divDef()
	for _, x := range a {
		t.hasDiv = t.hasDiv || x.hasDiv
	}
	return c.mk(k, t)
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Const(w int, v uint64) *Term {
	if w > 64 {
		return c.BigConst(w, new(big.Int).SetUint64(v))
	}
	v &= mask(w)
	return c.mk(key{op: OConst, w: w, n: v}, &Term{Op: OConst, W: w, N: v})
}

// BigConst makes a constant from an integer, reduced modulo 2^w.
func (c *Ctx) BigConst(w int, v *big.Int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.Const(w, x.Uint64())
	}
	return c.mk(key{op: OConst, w: w, s: x.Text(16)}, &Term{Op: OConst, W: w, Big: x})
}

func (c *Ctx) Var(name string, w int) *Term {
	return c.mk(key{op: OVar, w: w, s: name}, &Term{Op: OVar, W: w, Name: name})
}

func (t *Term) IsConst() bool { return t.Op == OConst }

// Val returns the constant as big.Int (unsigned).
func (t *Term) Val() *big.Int {
	if t.Big != nil {
		return t.Big
	}
	return new(big.Int).SetUint64(t.N)
}

func (t *Term) isZero() bool {
	return t.Op == OConst && ((t.Big == nil && t.N == 0) || (t.Big != nil && t.Big.Sign() == 0))
}
func (t *Term) isOnes() bool {
	if t.Op != OConst || t.W == 0 {
		return false
	}
	if t.Big == nil {
		return t.N == mask(t.W)
	}
	return t.Big.BitLen() == t.W && allOnes(t.Big)
}
func allOnes(b *big.Int) bool {
	x := new(big.Int).Add(b, big.NewInt(1))
	return x.TrailingZeroBits() == uint(b.BitLen())
}

func sgn(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<uint(64-w)) >> uint(64-w)
}

func signedBig(t *Term) *big.Int {
	v := t.Val()
	if v.Bit(t.W-1) == 1 {
		return new(big.Int).Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.W)))
	}
	return v
}

// ---- booleans ----

func (c *Ctx) Not(a *Term) *Term {
	if a.W != 0 {
		panic("Not on bv")
	}
	switch a.Op {
	case OConst:
		return c.Bool(a.N == 0)
	case ONot:
		return a.A[0]
	case OUlt:
		return c.Ule(a.A[1], a.A[0])
	case OUle:
		return c.Ult(a.A[1], a.A[0])
	case OSlt:
		return c.Sle(a.A[1], a.A[0])
	case OSle:
		return c.Slt(a.A[1], a.A[0])
	}
	return c.node(ONot, 0, 0, a)
}

func (c *Ctx) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, y := range x.A {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if x.Op == ONot && seen[x.A[0]] {
			return false
		}
		if n, ok := c.tab[key{op: ONot, a: x.ID}]; ok && seen[n] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return c.node(op, 0, 0, out...)
}

func (c *Ctx) And(xs ...*Term) *Term {
	if len(xs) == 2 {
		a, b := xs[0], xs[1]
		if a == c.True {
			return b
		}
		if b == c.True || a == b {
			return a
		}
		if a == c.False || b == c.False {
			return c.False
		}
	}
	return c.nary(OAnd, c.True, c.False, xs)
}
func (c *Ctx) Or(xs ...*Term) *Term {
	if len(xs) == 2 {
		a, b := xs[0], xs[1]
		if a == c.False {
			return b
		}
		if b == c.False || a == b {
			return a
		}
		if a == c.True || b == c.True {
			return c.True
		}
	}
	return c.nary(OOr, c.False, c.True, xs)
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

// constTree reports whether t is an ite-tree over constant leaves (small).
func constTree(t *Term, depth int) bool {
	if t.Op == OConst {
		return true
	}
	if t.Op == OIte && depth > 0 {
		return constTree(t.A[1], depth-1) && constTree(t.A[2], depth-1)
	}
	return false
}

func (c *Ctx) mapTree(t *Term, f func(*Term) *Term) *Term {
	if t.Op == OIte {
		return c.Ite(t.A[0], c.mapTree(t.A[1], f), c.mapTree(t.A[2], f))
	}
	return f(t)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width %d %d", a.W, b.W))
	}
	if a.Op == OConst && b.Op == OConst {
		return c.False // hash-consed
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if a.W == 0 {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		if (a.Op == ONot && a.A[0] == b) || (b.Op == ONot && b.A[0] == a) {
			return c.False
		}
	} else {
		if c.EqHook != nil {
			if r := c.EqHook(a, b); r != nil {
				return r
			}
		}
		if b.Op == OConst {
			switch a.Op {
			case OIte:
				if constTree(a, 12) || a.A[1].Op == OConst || a.A[2].Op == OConst {
					return c.Ite(a.A[0], c.Eq(a.A[1], b), c.Eq(a.A[2], b))
				}
			case OAdd:
				if a.A[1].Op == OConst {
					return c.Eq(a.A[0], c.Sub(b, a.A[1]))
				}
			case OBNot:
				return c.Eq(a.A[0], c.BNot(b))
			case OBXor:
				if a.A[1].Op == OConst {
					return c.Eq(a.A[0], c.BXor(b, a.A[1]))
				}
			case OSExt:
				x := a.A[0]
				lo := c.Extract(b, x.W-1, 0)
				if c.SExt(lo, b.W) == b {
					return c.Eq(x, lo)
				}
				return c.False
			}
			if um, ok := umax(a); ok && b.Big == nil && b.N > um {
				return c.False
			}
		}
		if a.Op == OConcat || b.Op == OConcat {
			if r := c.eqPieces(a, b); r != nil {
				return r
			}
		}
		if a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
			return c.Eq(a.A[0], b.A[0])
		}
		if a.Op == OAdd && b.Op == OAdd && a.A[1] == b.A[1] {
			return c.Eq(a.A[0], b.A[0])
		}
	}
	if a.ID > b.ID && b.Op != OConst {
		a, b = b, a
	}
	return c.node(OEq, 0, 0, a, b)
}

// eqPieces splits an equality at the concat boundaries.
func (c *Ctx) eqPieces(a, b *Term) *Term {
	pa, pb := pieces(a), pieces(b)
	// only split when one side's cut points are all cut points of the other or the other side is constant
	if b.Op != OConst {
		cuts := map[int]bool{}
		pos := 0
		for i := len(pb) - 1; i >= 0; i-- {
			pos += pb[i].W
			cuts[pos] = true
		}
		common := 0
		pos = 0
		for i := len(pa) - 1; i >= 0; i-- {
			pos += pa[i].W
			if cuts[pos] {
				common++
			}
		}
		if common < 2 { // only the top
			// allow if constant pieces present on any side
			hasC := false
			for _, p := range pa {
				hasC = hasC || p.Op == OConst
			}
			for _, p := range pb {
				hasC = hasC || p.Op == OConst
			}
			if !hasC {
				return nil
			}
		}
	}
	set := map[int]bool{0: true, a.W: true}
	pos := 0
	for i := len(pa) - 1; i >= 0; i-- {
		pos += pa[i].W
		set[pos] = true
	}
	pos = 0
	for i := len(pb) - 1; i >= 0; i-- {
		pos += pb[i].W
		set[pos] = true
	}
	lo := 0
	var conj []*Term
	for p := 1; p <= a.W; p++ {
		if !set[p] {
			continue
		}
		e := c.Eq(c.Extract(a, p-1, lo), c.Extract(b, p-1, lo))
		if e == c.False {
			return c.False
		}
		conj = append(conj, e)
		lo = p
	}
	return c.And(conj...)
}

func pieces(t *Term) []*Term {
	if t.Op == OConcat {
		return t.A
	}
	return []*Term{t}
}

func (c *Ctx) Ite(k, a, b *Term) *Term {
	if k == c.True || a == b {
		return a
	}
	if k == c.False {
		return b
	}
	if k.Op == ONot {
		return c.Ite(k.A[0], b, a)
	}
	if a.W != b.W {
		panic("Ite width")
	}
	if a.W == 0 {
		if a == c.True {
			return c.Or(k, b)
		}
		if a == c.False {
			return c.And(c.Not(k), b)
		}
		if b == c.True {
			return c.Or(c.Not(k), a)
		}
		if b == c.False {
			return c.And(k, a)
		}
	}
	if a.Op == OIte && a.A[0] == k {
		a = a.A[1]
	}
	if b.Op == OIte && b.A[0] == k {
		b = b.A[2]
	}
	if a == b {
		return a
	}
	if b.Op == OIte && b.A[1] == a {
		return c.Ite(c.Or(k, b.A[0]), a, b.A[2])
	}
	// common zero-prefix concat: ite(k, 0++x, 0++y) -> 0 ++ ite(k,x,y)
	if a.W > 1 {
		za, zb := leadZeros(a), leadZeros(b)
		z := min(za, zb)
		if z > 0 && z < a.W && (a.Op == OConcat || b.Op == OConcat) {
			return c.Concat(c.Const(z, 0), c.Ite(k, c.Extract(a, a.W-1-z, 0), c.Extract(b, a.W-1-z, 0)))
		}
	}
	return c.node(OIte, a.W, 0, k, a, b)
}

// leadZeros is the number of syntactically known leading zero bits.
func leadZeros(t *Term) int {
	switch t.Op {
	case OConst:
		return t.W - t.Val().BitLen()
	case OConcat:
		if t.A[0].Op == OConst {
			z := leadZeros(t.A[0])
			return z
		}
	}
	return 0
}

// umax returns an upper bound of the unsigned value for terms up to 64 bits.
func umax(t *Term) (uint64, bool) { return umaxD(t, 9) }
func umaxD(t *Term, d int) (uint64, bool) {
	if t.W > 64 || t.W == 0 {
		return 0, false
	}
	full := mask(t.W)
	if d == 0 {
		return full, true
	}
	switch t.Op {
	case OConst:
		return t.N, true
	case OConcat:
		var v uint64
		for _, p := range t.A {
			m, _ := umaxD(p, d-1)
			v = v<<uint(p.W) | m
		}
		return v, true
	case OIte:
		a, _ := umaxD(t.A[1], d-1)
		b, _ := umaxD(t.A[2], d-1)
		return max(a, b), true
	case OBAnd:
		a, _ := umaxD(t.A[0], d-1)
		b, _ := umaxD(t.A[1], d-1)
		return min(a, b), true
	case OExtract:
		if t.N == 0 && t.A[0].W <= 64 {
			if m, _ := umaxD(t.A[0], d-1); m <= full {
				return m, true
			}
		}
	case OURem:
		if t.A[1].Op == OConst && t.A[1].N > 0 {
			return t.A[1].N - 1, true
		}
	case OUDiv:
		if t.A[1].Op == OConst && t.A[1].N > 0 {
			a, _ := umaxD(t.A[0], d-1)
			return a / t.A[1].N, true
		}
	case OAdd:
		a, _ := umaxD(t.A[0], d-1)
		b, _ := umaxD(t.A[1], d-1)
		s, carry := bits.Add64(a, b, 0)
		if carry == 0 && s <= full {
			return s, true
		}
	case OMul:
		a, _ := umaxD(t.A[0], d-1)
		b, _ := umaxD(t.A[1], d-1)
		hi, lo := bits.Mul64(a, b)
		if hi == 0 && lo <= full {
			return lo, true
		}
	case OLshr:
		return umaxD(t.A[0], d-1)
	}
	return full, true
}

func umin(t *Term) uint64 {
	switch t.Op {
	case OConst:
		if t.Big == nil {
			return t.N
		}
	case OIte:
		return min(umin(t.A[1]), umin(t.A[2]))
	case OAdd:
		if a, ok := umax(t.A[0]); ok && t.A[1].Op == OConst && t.A[1].Big == nil {
			s, carry := bits.Add64(a, t.A[1].N, 0)
			if carry == 0 && s <= mask(t.W) {
				return umin(t.A[0]) + t.A[1].N
			}
		}
	case OConcat:
		if t.W <= 64 {
			var v uint64
			for _, p := range t.A {
				v = v<<uint(p.W) | umin(p)
			}
			return v
		}
	}
	return 0
}

// stripZ drops known leading zeros of a zero extension.
func stripZ(t *Term) *Term {
	for t.Op == OConcat && len(t.A) == 2 && t.A[0].isZero() {
		t = t.A[1]
	}
	return t
}

// sumNoWrap flattens a sum that cannot wrap, as long as every part is known to
// be exact, into its parts and a constant.
func sumNoWrap(t *Term, parts []*Term, k uint64) ([]*Term, uint64, bool) {
	t = stripZ(t)
	if t.Op == OConst && t.Big == nil {
		s, c := bits.Add64(k, t.N, 0)
		return parts, s, c == 0
	}
	if t.Op == OAdd && t.W <= 64 {
		x, _ := umax(t.A[0])
		y, _ := umax(t.A[1])
		if s, c := bits.Add64(x, y, 0); c == 0 && s <= mask(t.W) {
			parts, k, ok := sumNoWrap(t.A[0], parts, k)
			if !ok {
				return nil, 0, false
			}
			return sumNoWrap(t.A[1], parts, k)
		}
	}
	return append(parts, t), k, true
}

// splitDiv recognises a = q*d + r with r < d and no overflow.
func (c *Ctx) splitDiv(a, d *Term) (q, r *Term, ok bool) {
	if d.Op != OConst || d.Big != nil || d.N < 2 || a.W > 64 {
		return nil, nil, false
	}
	parts, k, ok := sumNoWrap(a, nil, 0)
	if !ok || len(parts) > 8 {
		return nil, nil, false
	}
	q, r = c.Const(a.W, k/d.N), c.Const(a.W, k%d.N)
	rest := k % d.N
	found := k >= d.N
	for _, t := range parts {
		if t.W > a.W {
			return nil, nil, false
		}
		if t.Op == OMul && t.A[1].Op == OConst && t.A[1].Big == nil && t.A[1].N%d.N == 0 && t.A[1].N > 0 {
			m, _ := umax(t.A[0])
			if hi, lo := bits.Mul64(m, t.A[1].N); hi == 0 && lo <= mask(t.W) {
				q = c.Add(q, c.Mul(c.ZExt(t.A[0], a.W), c.Const(a.W, t.A[1].N/d.N)))
				found = true
				continue
			}
		}
		m, _ := umax(t)
		s, cy := bits.Add64(rest, m, 0)
		if cy != 0 || s >= d.N {
			return nil, nil, false
		}
		rest = s
		r = c.Add(r, c.ZExt(t, a.W))
	}
	return q, r, found
}

// wholeDiv returns p when t is p/d*d for a constant d.
func (c *Ctx) wholeDiv(t *Term) *Term {
	if t.Op == OMul && t.A[1].Op == OConst && t.A[0].Op == OUDiv && t.A[0].A[1] == t.A[1] {
		return t.A[0].A[0]
	}
	return nil
}

// cmpNot brings a comparison with a complement into one of its two equivalent
// forms: ~x < y is ~y < x, and x < ~y is y < ~x.
func (c *Ctx) cmpNot(a, b *Term) (*Term, *Term, bool) {
	switch {
	case a.Op == OBNot && b.Op == OBNot:
		return b.A[0], a.A[0], true
	case a.Op == OBNot && b.Op != OConst && a.A[0].ID > b.ID:
		return c.BNot(b), a.A[0], true
	case b.Op == OBNot && a.Op != OConst && a.ID < b.A[0].ID:
		return b.A[0], c.BNot(a), true
	}
	return nil, nil, false
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.W != b.W {
		panic("Ult width")
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.Val().Cmp(b.Val()) < 0)
	}
	if b.isZero() || a.isOnes() {
		return c.False
	}
	if a.isZero() {
		return c.Not(c.Eq(b, a))
	}
	if b.Op == OConst && b.Big == nil && b.N == 1 {
		return c.Eq(a, c.Const(a.W, 0))
	}
	if x, y, ok := c.cmpNot(a, b); ok {
		return c.Ult(x, y)
	}
	if r := c.cmpTree(a, b, c.Ult); r != nil {
		return r
	}
	if a.W <= 64 {
		ua, _ := umax(a)
		ub, _ := umax(b)
		if ua < umin(b) {
			return c.True
		}
		if umin(a) >= ub {
			return c.False
		}
	}
	if a2, b2, ok := c.stripZero(a, b); ok {
		return c.Ult(a2, b2)
	}
	return c.node(OUlt, 0, 0, a, b)
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(a.Val().Cmp(b.Val()) <= 0)
	}
	if a.isZero() || b.isOnes() {
		return c.True
	}
	if b.isZero() {
		return c.Eq(a, b)
	}
	if x, y, ok := c.cmpNot(a, b); ok {
		return c.Ule(x, y)
	}
	if r := c.cmpTree(a, b, c.Ule); r != nil {
		return r
	}
	if a.W <= 64 {
		ua, _ := umax(a)
		ub, _ := umax(b)
		if ua <= umin(b) {
			return c.True
		}
		if umin(a) > ub {
			return c.False
		}
	}
	if a2, b2, ok := c.stripZero(a, b); ok {
		return c.Ule(a2, b2)
	}
	// a <= const  ->  a < const+1 (canonical form)
	return c.node(OUle, 0, 0, a, b)
}

func (c *Ctx) cmpTree(a, b *Term, f func(a, b *Term) *Term) *Term {
	if b.Op == OConst && a.Op == OIte && constTree(a, 12) {
		return c.mapTree(a, func(x *Term) *Term { return f(x, b) })
	}
	if a.Op == OConst && b.Op == OIte && constTree(b, 12) {
		return c.mapTree(b, func(x *Term) *Term { return f(a, x) })
	}
	return nil
}

func (c *Ctx) stripZero(a, b *Term) (*Term, *Term, bool) {
	if a.Op != OConcat && b.Op != OConcat {
		return nil, nil, false
	}
	z := min(leadZeros(a), leadZeros(b))
	if z == 0 {
		return nil, nil, false
	}
	if z >= a.W {
		z = a.W - 1
	}
	return c.Extract(a, a.W-1-z, 0), c.Extract(b, b.W-1-z, 0), true
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(signedBig(a).Cmp(signedBig(b)) < 0)
	}
	if r := c.cmpTree(a, b, c.Slt); r != nil {
		return r
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ult(a, b)
	}
	if a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
		return c.Slt(a.A[0], b.A[0])
	}
	return c.node(OSlt, 0, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Op == OConst && b.Op == OConst {
		return c.Bool(signedBig(a).Cmp(signedBig(b)) <= 0)
	}
	if r := c.cmpTree(a, b, c.Sle); r != nil {
		return r
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.Ule(a, b)
	}
	if a.Op == OSExt && b.Op == OSExt && a.A[0].W == b.A[0].W {
		return c.Sle(a.A[0], b.A[0])
	}
	return c.node(OSle, 0, 0, a, b)
}

func (c *Ctx) nonNeg(t *Term) bool {
	if t.W <= 64 {
		u, ok := umax(t)
		return ok && u < 1<<uint(t.W-1)
	}
	return leadZeros(t) > 0
}

// ---- structure ----

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	if hi < lo || lo < 0 || hi >= t.W {
		panic(fmt.Sprintf("Extract %d %d of %d", hi, lo, t.W))
	}
	w := hi - lo + 1
	if w == t.W {
		return t
	}
	switch t.Op {
	case OConst:
		if t.Big == nil {
			return c.Const(w, t.N>>uint(lo))
		}
		return c.BigConst(w, new(big.Int).Rsh(t.Big, uint(lo)))
	case OExtract:
		l := int(t.N)
		return c.Extract(t.A[0], hi+l, lo+l)
	case OConcat:
		var out []*Term
		pos := t.W
		for _, p := range t.A {
			top, bot := pos-1, pos-p.W
			pos = bot
			if bot > hi || top < lo {
				continue
			}
			h, l := min(hi, top), max(lo, bot)
			out = append(out, c.Extract(p, h-bot, l-bot))
		}
		return c.Concat(out...)
	case OSExt:
		x := t.A[0]
		if hi < x.W {
			return c.Extract(x, hi, lo)
		}
		if lo == 0 {
			return c.SExt(x, w)
		}
		if lo >= x.W {
			return c.SExt(c.Extract(x, x.W-1, x.W-1), w)
		}
		return c.SExt(c.Extract(x, x.W-1, lo), w)
	case OIte:
		if (t.A[1].Op == OConst || t.A[2].Op == OConst) || lo == 0 || constTree(t, 12) {
			return c.Ite(t.A[0], c.Extract(t.A[1], hi, lo), c.Extract(t.A[2], hi, lo))
		}
	case OBAnd:
		return c.BAnd(c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
	case OBOr:
		return c.BOr(c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
	case OBXor:
		return c.BXor(c.Extract(t.A[0], hi, lo), c.Extract(t.A[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(t.A[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(t.A[0], hi, 0), c.Extract(t.A[1], hi, 0))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(t.A[0], hi, 0), c.Extract(t.A[1], hi, 0))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.A[0], hi, 0), c.Extract(t.A[1], hi, 0))
		}
	}
	return c.node(OExtract, w, uint64(lo), t)
}

func (c *Ctx) Concat(xs ...*Term) *Term {
	var out []*Term
	push := func(x *Term) {
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.Op == OConst && x.Op == OConst {
				w := p.W + x.W
				if w <= 64 {
					out[n-1] = c.Const(w, p.N<<uint(x.W)|x.N)
				} else {
					v := new(big.Int).Lsh(p.Val(), uint(x.W))
					out[n-1] = c.BigConst(w, v.Or(v, x.Val()))
				}
				return
			}
			if pb, pl := base(p); true {
				xb, xl := base(x)
				if pb == xb && pl == xl+x.W && (p.Op == OExtract || x.Op == OExtract) {
					out[n-1] = c.Extract(pb, pl+p.W-1, xl)
					return
				}
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		if x.Op == OConcat {
			for _, y := range x.A {
				push(y)
			}
		} else {
			push(x)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, x := range out {
		w += x.W
	}
	return c.node(OConcat, w, 0, out...)
}

func base(t *Term) (*Term, int) {
	if t.Op == OExtract {
		return t.A[0], int(t.N)
	}
	return t, 0
}

func (c *Ctx) ZExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return c.Extract(t, w-1, 0)
	}
	return c.Concat(c.Const(w-t.W, 0), t)
}
func (c *Ctx) SExt(t *Term, w int) *Term {
	if w == t.W {
		return t
	}
	if w < t.W {
		return c.Extract(t, w-1, 0)
	}
	if t.Op == OConst {
		return c.BigConst(w, signedBig(t))
	}
	if leadZeros(t) > 0 {
		return c.ZExt(t, w)
	}
	if t.Op == OSExt {
		t = t.A[0]
	}
	if t.Op == OIte && constTree(t, 12) {
		return c.mapTree(t, func(x *Term) *Term { return c.SExt(x, w) })
	}
	return c.node(OSExt, w, 0, t)
}

// BoolToBV makes a bit-vector 0/1.
func (c *Ctx) BoolToBV(b *Term, w int) *Term { return c.Ite(b, c.Const(w, 1), c.Const(w, 0)) }

// ---- bitwise ----

type seg struct {
	hi, lo int
	t      *Term // nil for anything not constant-split
}

func cutsOf(t *Term, set map[int]bool) {
	switch t.Op {
	case OConcat:
		pos := 0
		for i := len(t.A) - 1; i >= 0; i-- {
			p := t.A[i]
			if p.Op == OConst {
				constCuts(p, pos, set)
			}
			pos += p.W
			set[pos] = true
		}
	case OConst:
		constCuts(t, 0, set)
	}
}

func constCuts(t *Term, off int, set map[int]bool) {
	v := t.Val()
	for i := 1; i < t.W; i++ {
		if v.Bit(i) != v.Bit(i-1) {
			set[off+i] = true
		}
	}
}

// piecewise applies a bitwise operator on the pieces of its operands.
func (c *Ctx) piecewise(a, b *Term, f func(a, b *Term) *Term) *Term {
	set := map[int]bool{a.W: true}
	cutsOf(a, set)
	cutsOf(b, set)
	if len(set) == 1 || len(set) > 40 {
		return nil
	}
	var out []*Term
	lo := 0
	for p := 1; p <= a.W; p++ {
		if set[p] {
			out = append(out, f(c.Extract(a, p-1, lo), c.Extract(b, p-1, lo)))
			lo = p
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return c.Concat(out...)
}

func (c *Ctx) bigBin(a, b *Term, f func(x, y, z *big.Int) *big.Int) *Term {
	return c.BigConst(a.W, f(new(big.Int), a.Val(), b.Val()))
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Op == OConst && b.Op == OConst {
		return c.bigBin(a, b, (*big.Int).And)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return b
	}
	if b.isOnes() {
		return a
	}
	if a.Op == OConcat || b.Op == OConcat || b.Op == OConst {
		if r := c.piecewise(a, b, c.BAnd); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OBAnd, a.W, 0, a, b)
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Op == OConst && b.Op == OConst {
		return c.bigBin(a, b, (*big.Int).Or)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.isOnes() {
		return b
	}
	if a.Op == OConcat || b.Op == OConcat || b.Op == OConst {
		if r := c.piecewise(a, b, c.BOr); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OBOr, a.W, 0, a, b)
}
func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.Const(a.W, 0)
	}
	if a.Op == OConst && b.Op == OConst {
		return c.bigBin(a, b, (*big.Int).Xor)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if b.isOnes() {
		return c.BNot(a)
	}
	if a.Op == OConcat || b.Op == OConcat || b.Op == OConst {
		if r := c.piecewise(a, b, c.BXor); r != nil {
			return r
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OBXor, a.W, 0, a, b)
}
func (c *Ctx) BNot(a *Term) *Term {
	switch a.Op {
	case OConst:
		m := new(big.Int).Lsh(big.NewInt(1), uint(a.W))
		m.Sub(m, big.NewInt(1))
		return c.BigConst(a.W, m.Xor(m, a.Val()))
	case OBNot:
		return a.A[0]
	case OConcat:
		out := make([]*Term, len(a.A))
		for i, p := range a.A {
			out[i] = c.BNot(p)
		}
		return c.Concat(out...)
	}
	return c.node(OBNot, a.W, 0, a)
}

// ---- arithmetic ----

func (c *Ctx) Add(a, b *Term) *Term {
	if a.W != b.W {
		panic("Add width")
	}
	if a.Op == OConst && b.Op == OConst {
		if a.W <= 64 {
			return c.Const(a.W, a.N+b.N)
		}
		return c.bigBin(a, b, (*big.Int).Add)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if p := c.wholeDiv(a); p != nil && b == c.URem(p, a.A[1]) {
		return p
	}
	if p := c.wholeDiv(b); p != nil && a == c.URem(p, b.A[1]) {
		return p
	}
	if a.Op == OAdd && a.A[1].Op == OConst {
		if b.Op == OConst {
			return c.Add(a.A[0], c.Add(a.A[1], b))
		}
		return c.Add(c.Add(a.A[0], b), a.A[1])
	}
	if b.Op == OAdd && b.A[1].Op == OConst {
		return c.Add(c.Add(a, b.A[0]), b.A[1])
	}
	if a.Op == OSub && a.A[1] == b {
		return a.A[0]
	}
	if b.Op == OSub && b.A[1] == a {
		return b.A[0]
	}
	if b.Op == OConst && a.Op == OIte && constTree(a, 12) {
		return c.mapTree(a, func(x *Term) *Term { return c.Add(x, b) })
	}
	// disjoint bits: add is or
	if c.disjoint(a, b) {
		return c.BOr(a, b)
	}
	// common known zero prefix: narrow with one carry bit
	if z := min(leadZeros(a), leadZeros(b)); z > 1 && z < a.W && (a.Op == OConcat || b.Op == OConcat) && a.W-z+1 < a.W {
		n := a.W - z + 1
		return c.ZExt(c.Add(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.W)
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OAdd, a.W, 0, a, b)
}

func (c *Ctx) disjoint(a, b *Term) bool {
	if a.Op != OConcat && b.Op != OConcat {
		return false
	}
	za, zb := zeroMask(a), zeroMask(b)
	if za == nil || zb == nil {
		return false
	}
	x := new(big.Int).Or(za, zb)
	return x.BitLen() == a.W && allOnes(x)
}

// zeroMask has ones at the bits known to be zero.
func zeroMask(t *Term) *big.Int {
	m := new(big.Int)
	one := big.NewInt(1)
	switch t.Op {
	case OConst:
		m.Lsh(one, uint(t.W))
		m.Sub(m, one)
		return m.AndNot(m, t.Val())
	case OConcat:
		for _, p := range t.A {
			m.Lsh(m, uint(p.W))
			if z := zeroMask(p); z != nil {
				m.Or(m, z)
			}
		}
		return m
	}
	return nil
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(a.W, 0), a) }

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.W, 0)
	}
	if b.Op == OConst {
		if a.Op == OConst {
			return c.bigBin(a, b, (*big.Int).Sub)
		}
		if b.isZero() {
			return a
		}
		return c.Add(a, c.BigConst(b.W, new(big.Int).Neg(b.Val())))
	}
	if a.Op == OAdd {
		if a.A[0] == b {
			return a.A[1]
		}
		if a.A[1] == b {
			return a.A[0]
		}
		if a.A[1].Op == OConst {
			return c.Add(c.Sub(a.A[0], b), a.A[1])
		}
	}
	if b.Op == OAdd && b.A[1].Op == OConst {
		return c.Sub(c.Sub(a, b.A[0]), b.A[1])
	}
	if a.Op == OConst && b.Op == OIte && constTree(b, 12) {
		return c.mapTree(b, func(x *Term) *Term { return c.Sub(a, x) })
	}
	if a.isOnes() {
		return c.BNot(b)
	}
	if p := c.wholeDiv(b); p == a && p != nil {
		return c.URem(a, b.A[1])
	}
	return c.node(OSub, a.W, 0, a, b)
}

func pow2(t *Term) int {
	if t.Op != OConst {
		return -1
	}
	v := t.Val()
	if v.Sign() > 0 && int(v.TrailingZeroBits()) == v.BitLen()-1 {
		return v.BitLen() - 1
	}
	return -1
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		return c.bigBin(a, b, (*big.Int).Mul)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return b
	}
	if k := pow2(b); k >= 0 {
		return c.ShlC(a, k)
	}
	if b.Op == OConst && a.Op == OIte && constTree(a, 12) {
		return c.mapTree(a, func(x *Term) *Term { return c.Mul(x, b) })
	}
	// narrow when both have leading zeros
	if za, zb := leadZeros(a), leadZeros(b); za > 0 && zb > 0 {
		n := (a.W - za) + (b.W - zb)
		if n < a.W {
			return c.ZExt(c.Mul(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.W)
		}
	}
	if b.Op != OConst && a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OMul, a.W, 0, a, b)
}

// UDiv and URem: the divisor is nonzero (callers check).
func (c *Ctx) UDiv(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && !b.isZero() {
		return c.bigBin(a, b, (*big.Int).Div)
	}
	if k := pow2(b); k >= 0 {
		return c.LshrC(a, k)
	}
	if q, _, ok := c.splitDiv(a, b); ok {
		return q
	}
	if z := min(leadZeros(a), leadZeros(b)); z > 0 && z < a.W {
		return c.ZExt(c.UDiv(c.Extract(a, a.W-1-z, 0), c.Extract(b, a.W-1-z, 0)), a.W)
	}
	return c.node(OUDiv, a.W, 0, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && !b.isZero() {
		return c.bigBin(a, b, (*big.Int).Mod)
	}
	if k := pow2(b); k >= 0 {
		if k == 0 {
			return c.Const(a.W, 0)
		}
		return c.ZExt(c.Extract(a, k-1, 0), a.W)
	}
	if u, ok := umax(a); ok && b.Op == OConst && u < b.N {
		return a
	}
	if _, r, ok := c.splitDiv(a, b); ok {
		return r
	}
	if z := min(leadZeros(a), leadZeros(b)); z > 0 && z < a.W {
		return c.ZExt(c.URem(c.Extract(a, a.W-1-z, 0), c.Extract(b, a.W-1-z, 0)), a.W)
	}
	t := c.node(OURem, a.W, 0, a, b)
	if t.quo == nil && t.divDef() {
		t.quo = c.UDiv(a, b)
	}
	if b.Op == OConst && !b.isZero() {
		top := new(big.Int).Sub(b.Val(), big.NewInt(1))
		if k := top.BitLen(); k > 0 && k < a.W {
			return c.ZExt(c.Extract(t, k-1, 0), a.W)
		}
	}
	return t
}
func (c *Ctx) SDiv(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && !b.isZero() {
		return c.BigConst(a.W, new(big.Int).Quo(signedBig(a), signedBig(b)))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.UDiv(a, b)
	}
	return c.node(OSDiv, a.W, 0, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst && !b.isZero() {
		return c.BigConst(a.W, new(big.Int).Rem(signedBig(a), signedBig(b)))
	}
	if c.nonNeg(a) && c.nonNeg(b) {
		return c.URem(a, b)
	}
	return c.node(OSRem, a.W, 0, a, b)
}

func (c *Ctx) ShlC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Extract(a, a.W-1-k, 0), c.Const(k, 0))
}
func (c *Ctx) LshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.W {
		return c.Const(a.W, 0)
	}
	return c.Concat(c.Const(k, 0), c.Extract(a, a.W-1, k))
}
func (c *Ctx) AshrC(a *Term, k int) *Term {
	if k == 0 {
		return a
	}
	if k >= a.W {
		k = a.W - 1
	}
	return c.SExt(c.Extract(a, a.W-1, k), a.W)
}

// shamt adapts a shift count term to width w with saturation.
func (c *Ctx) shamt(n *Term, w int) *Term {
	if n.W == w {
		return n
	}
	if n.W < w {
		return c.ZExt(n, w)
	}
	lim := c.Const(n.W, uint64(w))
	return c.Ite(c.Ult(n, lim), c.Extract(n, w-1, 0), c.Const(w, uint64(w)))
}

func (c *Ctx) Shl(a, n *Term) *Term {
	if n.Op == OConst {
		if n.Val().Cmp(big.NewInt(int64(a.W))) >= 0 {
			return c.Const(a.W, 0)
		}
		return c.ShlC(a, int(n.N))
	}
	if a.isZero() {
		return a
	}
	if n.Op == OIte && constTree(n, 12) {
		return c.mapTree(n, func(x *Term) *Term { return c.Shl(a, x) })
	}
	return c.node(OShl, a.W, 0, a, c.shamt(n, a.W))
}
func (c *Ctx) Lshr(a, n *Term) *Term {
	if n.Op == OConst {
		if n.Val().Cmp(big.NewInt(int64(a.W))) >= 0 {
			return c.Const(a.W, 0)
		}
		return c.LshrC(a, int(n.N))
	}
	if a.isZero() {
		return a
	}
	if n.Op == OIte && constTree(n, 12) {
		return c.mapTree(n, func(x *Term) *Term { return c.Lshr(a, x) })
	}
	return c.node(OLshr, a.W, 0, a, c.shamt(n, a.W))
}
func (c *Ctx) Ashr(a, n *Term) *Term {
	if n.Op == OConst {
		if n.Val().Cmp(big.NewInt(int64(a.W))) >= 0 {
			return c.AshrC(a, a.W-1)
		}
		return c.AshrC(a, int(n.N))
	}
	return c.node(OAshr, a.W, 0, a, c.shamt(n, a.W))
}

// ---- printing ----

func (t *Term) constText() string {
	if t.W == 0 {
		if t.N == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%s %d)", t.Val().String(), t.W)
}

func sortText(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// String renders a term as a tree (for debugging; exponential in the worst case).
func (t *Term) String() string { return t.str(8) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return t.constText()
		}
		return "0x" + t.Val().Text(16)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opName[t.Op]
	if t.Op == OExtract {
		s = fmt.Sprintf("([%d:%d]", int(t.N)+t.W-1, t.N)
	}
	if t.Op == OSExt {
		s = fmt.Sprintf("(sext%d", t.W)
	}
	for _, a := range t.A {
		s += " " + a.str(d-1)
	}
	return s + ")"
}

func (t *Term) body(ref func(*Term) string) string {
	var sb strings.Builder
	if t.quo != nil {
		return fmt.Sprintf("(bvsub %s (bvmul %s %s))", ref(t.A[0]), ref(t.quo), ref(t.A[1]))
	}
	switch t.Op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.N)+t.W-1, t.N, ref(t.A[0]))
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.W-t.A[0].W, ref(t.A[0]))
	default:
		sb.WriteByte('(')
		sb.WriteString(opName[t.Op])
		for _, a := range t.A {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

// ---- evaluation under a model ----

type Model map[string]*big.Int

type Eval struct {
	M Model
	// Default gives the value of a variable the model does not mention.
	Default func(e *Eval, t *Term) *big.Int
	memo map[*Term]*big.Int
}

func NewEval(m Model) *Eval { return &Eval{M: m, memo: map[*Term]*big.Int{}} }

var bigOne = big.NewInt(1)
var bigZero = new(big.Int)

func (e *Eval) Bool(t *Term) bool { return e.Val(t).Sign() != 0 }

func wrap(x *big.Int, w int) *big.Int {
	if x.Sign() >= 0 && x.BitLen() <= w {
		return x
	}
	m := new(big.Int).Lsh(bigOne, uint(w))
	return new(big.Int).Mod(x, m)
}
func sg(x *big.Int, w int) *big.Int {
	if x.Bit(w-1) == 1 {
		return new(big.Int).Sub(x, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return x
}

func b2i(b bool) *big.Int {
	if b {
		return bigOne
	}
	return bigZero
}

// Val evaluates; variables missing from the model are 0.
func (e *Eval) Val(t *Term) *big.Int {
	switch t.Op {
	case OConst:
		return t.Val()
	case OVar:
		if v, ok := e.M[t.Name]; ok {
			return v
		}
		if e.Default != nil {
			v := e.Default(e, t)
			e.M[t.Name] = v
			return v
		}
		return bigZero
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r *big.Int
	n := new(big.Int)
	switch t.Op {
	case ONot:
		r = b2i(!e.Bool(t.A[0]))
	case OAnd:
		r = bigOne
		for _, a := range t.A {
			if !e.Bool(a) {
				r = bigZero
				break
			}
		}
	case OOr:
		r = bigZero
		for _, a := range t.A {
			if e.Bool(a) {
				r = bigOne
				break
			}
		}
	case OEq:
		r = b2i(e.Val(t.A[0]).Cmp(e.Val(t.A[1])) == 0)
	case OIte:
		if e.Bool(t.A[0]) {
			r = e.Val(t.A[1])
		} else {
			r = e.Val(t.A[2])
		}
	case OConcat:
		for _, a := range t.A {
			n.Lsh(n, uint(a.W))
			n.Or(n, e.Val(a))
		}
		r = n
	case OExtract:
		n.Rsh(e.Val(t.A[0]), uint(t.N))
		r = wrap(n, t.W)
	case OSExt:
		r = wrap(sg(e.Val(t.A[0]), t.A[0].W), t.W)
	case OBNot:
		r = wrap(n.Not(e.Val(t.A[0])), t.W)
	default:
		a, b := e.Val(t.A[0]), e.Val(t.A[1])
		w := t.A[0].W
		switch t.Op {
		case OAdd:
			r = wrap(n.Add(a, b), w)
		case OSub:
			r = wrap(n.Sub(a, b), w)
		case OMul:
			r = wrap(n.Mul(a, b), w)
		case OUDiv:
			if b.Sign() == 0 {
				r = wrap(big.NewInt(-1), w)
			} else {
				r = n.Quo(a, b)
			}
		case OURem:
			if b.Sign() == 0 {
				r = a
			} else {
				r = n.Rem(a, b)
			}
		case OSDiv:
			sa, sb := sg(a, w), sg(b, w)
			if sb.Sign() == 0 {
				if sa.Sign() < 0 {
					r = bigOne
				} else {
					r = wrap(big.NewInt(-1), w)
				}
			} else {
				r = wrap(n.Quo(sa, sb), w)
			}
		case OSRem:
			sa, sb := sg(a, w), sg(b, w)
			if sb.Sign() == 0 {
				r = a
			} else {
				r = wrap(n.Rem(sa, sb), w)
			}
		case OBAnd:
			r = n.And(a, b)
		case OBOr:
			r = n.Or(a, b)
		case OBXor:
			r = n.Xor(a, b)
		case OShl:
			if b.Cmp(big.NewInt(int64(w))) >= 0 {
				r = bigZero
			} else {
				r = wrap(n.Lsh(a, uint(b.Uint64())), w)
			}
		case OLshr:
			if b.Cmp(big.NewInt(int64(w))) >= 0 {
				r = bigZero
			} else {
				r = n.Rsh(a, uint(b.Uint64()))
			}
		case OAshr:
			k := uint(w)
			if b.Cmp(big.NewInt(int64(w))) < 0 {
				k = uint(b.Uint64())
			}
			r = wrap(n.Rsh(sg(a, w), k), w)
		case OUlt:
			r = b2i(a.Cmp(b) < 0)
		case OUle:
			r = b2i(a.Cmp(b) <= 0)
		case OSlt:
			r = b2i(sg(a, w).Cmp(sg(b, w)) < 0)
		case OSle:
			r = b2i(sg(a, w).Cmp(sg(b, w)) <= 0)
		default:
			panic("eval op")
		}
	}
	e.memo[t] = r
	return r
}

// Vars collects the variables of t into set.
func Vars(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Op == OVar {
		f(t)
		return
	}
	for _, a := range t.A {
		Vars(a, seen, f)
	}
}

// RawEq is an equality node that bypasses the simplifier and EqHook.
func (c *Ctx) RawEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.node(OEq, 0, 0, a, b)
}

// RawIff is a ⇔ b for booleans.
func (c *Ctx) RawIff(a, b *Term) *Term {
	return c.And(c.Or(c.Not(a), b), c.Or(a, c.Not(b)))
}

// LeadZeros is a lower bound of the number of leading zero bits of t.
func (c *Ctx) LeadZeros(t *Term) int { return leadZeros(t) }

// Size is the number of distinct terms built so far.
func (c *Ctx) Size() int { return len(c.tab) }
