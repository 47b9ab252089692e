package sym

import (
	"fmt"
	"math/big"
	"math/bits"

	"verif/engine/smt"
)

// HTag marks a variable that is the ideal hash of its input.
type HTag struct {
	Alg  string
	Rate int
	Ds   byte
	In   *smt.Term // nil when the input is empty
	N    int       // input bytes
	Out  int       // output bytes
}

// hashSum returns the digest of the bytes: the real one when they are all
// concrete, a fresh collision-free variable otherwise.
func (m *M) hashSum(rate int, ds byte, out int, in []V) []V {
	alg := fmt.Sprintf("k%d_%d_%d", rate, ds, out)
	if bs, ok := concreteBytes(in); ok {
		d := keccak(rate, ds, out, bs)
		if m.cfg.realHash == nil {
			m.cfg.realHash = newRealHashes()
		}
		m.cfg.realHash.put(alg, bs, d)
		return bytesV(d)
	}
	t := m.catBytes(in)
	return m.splitBytes(m.hashVar(alg, rate, ds, out, t))
}

func (m *M) hashVar(alg string, rate int, ds byte, out int, in *smt.Term) *smt.Term {
	k := fmt.Sprintf("%s:%d", alg, in.ID)
	if v, ok := m.hashVars[k]; ok {
		return v
	}
	v := m.c.Var(fmt.Sprintf("H%d", len(m.hashVars)+1), 8*out)
	v.Tag = &HTag{Alg: alg, Rate: rate, Ds: ds, In: in, N: in.W / 8, Out: out}
	m.hashVars[k] = v
	return v
}

func hashPart(t *smt.Term) (*smt.Term, int) {
	if t.Op == smt.OExtract && t.W >= 128 && t.A[0].Tag != nil {
		return t.A[0], int(t.N)
	}
	if t.Tag != nil {
		return t, 0
	}
	return nil, 0
}

// hashEq rewrites an equality of hash values into one of their inputs.
func (m *M) hashEq(a, b *smt.Term) *smt.Term {
	ha, la := hashPart(a)
	hb, lb := hashPart(b)
	if ha == nil && hb == nil {
		return nil
	}
	if ha != nil && hb != nil {
		if la != lb {
			return nil
		}
		x, y := ha.Tag.(*HTag), hb.Tag.(*HTag)
		if x.Alg != y.Alg || x.N != y.N {
			return m.c.False
		}
		if ha == hb {
			return m.c.True
		}
		k := [2]int{ha.ID, hb.ID}
		if k[0] > k[1] {
			k[0], k[1] = k[1], k[0]
		}
		if r, ok := m.hashEqs[k]; ok {
			return r
		}
		r := m.c.Eq(x.In, y.In)
		m.hashEqs[k] = r
		return r
	}
	if ha == nil {
		ha, la, a, b = hb, lb, b, a
	}
	if b.Op != smt.OConst {
		return nil
	}
	x := ha.Tag.(*HTag)
	if a != ha {
		return m.c.False // an ideal hash does not meet a given constant
	}
	if m.cfg.realHash != nil {
		if in, ok := m.cfg.realHash.get(x.Alg, b.Val(), x.Out); ok {
			if len(in) != x.N {
				return m.c.False
			}
			return m.c.Eq(x.In, m.c.BigConst(8*len(in), new(big.Int).SetBytes(in)))
		}
	}
	return m.c.False
}

// hashAxioms relates the hash variables of a constraint the solver gets to see.
func (m *M) axioms(t *smt.Term) []*smt.Term {
	hs := m.hashAxioms(t)
	out := append(hs, m.c.DivAxioms(t)...)
	for _, h := range hs {
		out = append(out, m.c.DivAxioms(h)...)
	}
	return out
}

func (m *M) hashAxioms(t *smt.Term) []*smt.Term {
	if len(m.hashVars) == 0 {
		return nil
	}
	var hs []*smt.Term
	seen := map[*smt.Term]bool{}
	var scan func(t *smt.Term)
	scan = func(t *smt.Term) {
		smt.Vars(t, seen, func(v *smt.Term) {
			if v.Tag != nil {
				hs = append(hs, v)
			}
		})
	}
	scan(t)
	n := len(hs)
	if n == 0 {
		return nil
	}
	for _, p := range m.path {
		scan(p)
	}
	var out []*smt.Term
	for i := 0; i < n; i++ {
		for j := i + 1; j < len(hs); j++ {
			x, y := hs[i].Tag.(*HTag), hs[j].Tag.(*HTag)
			if hs[i].W != hs[j].W {
				continue
			}
			raw := m.c.RawEq(hs[i], hs[j])
			if x.Alg != y.Alg || x.N != y.N {
				out = append(out, m.c.Not(raw))
				continue
			}
			out = append(out, m.c.RawIff(raw, m.c.Eq(x.In, y.In)))
		}
	}
	return out
}

func (m *M) defaultVar(e *smt.Eval, t *smt.Term) *big.Int {
	h, ok := t.Tag.(*HTag)
	if !ok {
		return new(big.Int)
	}
	in := make([]byte, h.N)
	e.Val(h.In).FillBytes(in)
	return new(big.Int).SetBytes(keccak(h.Rate, h.Ds, h.Out, in))
}

// ---- concrete Keccak ----

var rc = [24]uint64{0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A, 0x88, 0x80008009, 0x8000000A,
	0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008}
var rotc = [24]int{1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}
var piln = [24]int{10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1}

func keccakF(a *[25]uint64) {
	var bc [5]uint64
	for r := 0; r < 24; r++ {
		for i := 0; i < 5; i++ {
			bc[i] = a[i] ^ a[i+5] ^ a[i+10] ^ a[i+15] ^ a[i+20]
		}
		for i := 0; i < 5; i++ {
			t := bc[(i+4)%5] ^ bits.RotateLeft64(bc[(i+1)%5], 1)
			for j := 0; j < 25; j += 5 {
				a[j+i] ^= t
			}
		}
		t := a[1]
		for i := 0; i < 24; i++ {
			j := piln[i]
			b := a[j]
			a[j] = bits.RotateLeft64(t, rotc[i])
			t = b
		}
		for j := 0; j < 25; j += 5 {
			for i := 0; i < 5; i++ {
				bc[i] = a[j+i]
			}
			for i := 0; i < 5; i++ {
				a[j+i] ^= ^bc[(i+1)%5] & bc[(i+2)%5]
			}
		}
		a[0] ^= rc[r]
	}
}

func keccak(rate int, ds byte, out int, in []byte) []byte {
	var a [25]uint64
	buf := append([]byte{}, in...)
	buf = append(buf, ds)
	for len(buf)%rate != 0 {
		buf = append(buf, 0)
	}
	buf[len(buf)-1] |= 0x80
	for len(buf) > 0 {
		for i := 0; i < rate; i++ {
			a[i/8] ^= uint64(buf[i]) << (8 * uint(i%8))
		}
		keccakF(&a)
		buf = buf[rate:]
	}
	var res []byte
	for len(res) < out {
		for i := 0; i < rate && len(res) < out; i++ {
			res = append(res, byte(a[i/8]>>(8*uint(i%8))))
		}
		if len(res) < out {
			keccakF(&a)
		}
	}
	return res
}
