package sym

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"verif/engine/smt"
)

// txt collects formatted text; opaque once something symbolic cannot be rendered.
type txt struct {
	b      []V
	pre    []func() []V // text before b, rendered on demand
	opaque string
}

func (t *txt) lazy(f func() []V) {
	if len(t.b) > 0 {
		cp := t.b
		t.pre = append(t.pre, func() []V { return cp })
		t.b = nil
	}
	t.pre = append(t.pre, f)
}

// lazyStr is text rendered only when its content matters.
func (m *M) lazyStr(why string, f func() []V) V {
	o := &OStr{Why: why}
	ep := -1
	var done []V
	o.Force = func() []V {
		if ep != m.epoch {
			done = f()
			ep = m.epoch
		}
		return done
	}
	return V{P: o}
}

func (m *M) textOf(v V) []V {
	if o, ok := v.P.(*OStr); ok && o.Force != nil {
		return o.Force()
	}
	return strBytes(v)
}

// symInt renders a symbolic integer on demand; false when the directive is
// not handled.
func (m *M) symInt(t *txt, flags string, verb byte, big V) bool {
	base := 0
	switch verb {
	case 'd', 'v', 's':
		base = 10
	case 'x', 'X':
		base = 16
	}
	if base == 0 || (flags != "" && (flags != "#" || base != 16)) {
		return false
	}
	t.lazy(func() []V {
		b := strBytes(m.bigText(big, base))
		if verb == 'X' {
			up := make([]V, len(b))
			for i, x := range b {
				if x.P == nil {
					if x.U >= 'a' && x.U <= 'z' {
						x.U -= 32
					}
				} else {
					tm := x.P.(*smt.Term)
					x = tv(m.c.Ite(m.c.Ule(m.c.Const(8, 'a'), tm), m.c.Sub(tm, m.c.Const(8, 32)), tm))
				}
				up[i] = x
			}
			b = up
		}
		if flags == "#" {
			pre := "0x"
			if verb == 'X' {
				pre = "0X"
			}
			k := 0
			if len(b) > 0 && b[0].P == nil && b[0].U == '-' {
				k = 1
			}
			out := append([]V{}, b[:k]...)
			out = append(out, bytesV([]byte(pre))...)
			b = append(out, b[k:]...)
		}
		return b
	})
	return true
}

func (t *txt) s(s string) {
	for i := 0; i < len(s); i++ {
		t.b = append(t.b, V{U: uint64(s[i])})
	}
}

func (t *txt) v(v V) {
	if o, ok := v.P.(*OStr); ok {
		if o.Force != nil {
			t.lazy(o.Force)
			return
		}
		t.opaque = o.Why
		return
	}
	t.b = append(t.b, strBytes(v)...)
}

func (m *M) txtVal(t *txt) V {
	if t.opaque != "" {
		return V{P: &OStr{Why: t.opaque}}
	}
	if len(t.pre) > 0 {
		pre, b := t.pre, t.b
		return m.lazyStr("symbolic text", func() []V {
			var out []V
			for _, f := range pre {
				out = append(out, f()...)
			}
			return append(out, b...)
		})
	}
	return mkStr(append([]V{}, t.b...))
}

func (m *M) sprintf(f V, args []V) V {
	fs, ok := concreteStr(f)
	if !ok {
		return V{P: &OStr{Why: "symbolic format"}}
	}
	t := &txt{}
	n := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			j := strings.IndexByte(fs[i:], '%')
			if j < 0 {
				j = len(fs) - i
			}
			t.s(fs[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.*[]", fs[j]) >= 0 {
			if fs[j] == '*' || fs[j] == '[' {
				return V{P: &OStr{Why: "format directive"}}
			}
			j++
		}
		if j >= len(fs) {
			t.s("%!(NOVERB)")
			break
		}
		flags := fs[i+1 : j]
		// verbs may be multi-byte; treat the byte
		verb := fs[j]
		i = j + 1
		if verb == '%' {
			t.s("%")
			continue
		}
		if n >= len(args) {
			t.s("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		a := args[n]
		n++
		m.fmtArg(t, flags, verb, a, 0)
		if t.opaque != "" {
			return m.txtVal(t)
		}
	}
	if n < len(args) {
		t.opaque = "extra arguments"
	}
	return m.txtVal(t)
}

func (m *M) sprint(args []V, ln bool) V {
	t := &txt{}
	prevStr := true
	for i, a := range args {
		isStr := false
		if a.P != nil {
			isStr = a.P.(*Iface).T.K == KString
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			t.s(" ")
		}
		prevStr = isStr
		m.fmtArg(t, "", 'v', a, 0)
		if t.opaque != "" {
			return m.txtVal(t)
		}
	}
	if ln {
		t.s("\n")
	}
	return m.txtVal(t)
}

func (m *M) fmtArg(t *txt, flags string, verb byte, a V, depth int) {
	if a.P == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				t.s("%!s(<nil>)")
			} else {
				t.s("<nil>")
			}
			return
		}
		t.s("%!" + string(rune(verb)) + "(<nil>)")
		return
	}
	i := a.P.(*Iface)
	if verb == 'T' {
		t.s(typeText(i.T))
		return
	}
	if verb == 'p' {
		t.opaque = "address"
		return
	}
	m.fmtVal(t, flags, verb, i.T, i.V, depth)
}

func typeText(t *TI) string {
	return types.TypeString(t.T, func(p *types.Package) string { return p.Name() })
}

func (m *M) fmtVal(t *txt, flags string, verb byte, ti *TI, v V, depth int) {
	if t.opaque != "" {
		return
	}
	if depth > 6 || len(t.b) > 20000 {
		t.opaque = "deep value"
		return
	}
	if ti.K == KPtr && v.P == nil {
		if ti.Elem != nil && m.methodByName(ti, "Error") == nil && m.methodByName(ti, "String") == nil {
			t.s("<nil>")
			return
		}
	}
	// native big integers
	if ti.K == KPtr && ti.Elem != nil && ti.Elem.K == KOpaque {
		nm := ti.Elem.T.String()
		if nm == "math/big.Int" {
			p := m.ptr(v)
			b, ok := m.bigConst(*p)
			if !ok {
				if !m.symInt(t, flags, verb, *p) {
					t.opaque = "symbolic integer"
				}
				return
			}
			if verb == 'v' {
				verb = 'd'
			}
			t.s(fmt.Sprintf("%"+flags+string(rune(verb)), b))
			return
		}
		t.opaque = nm
		return
	}
	if ti == m.rtypeTI {
		if v.P == nil {
			t.s("<nil>")
		} else {
			t.s(typeText(v.P.(*TI)))
		}
		return
	}
	if ti.K == KOpaque {
		if rv, ok := v.P.(*RV); ok {
			m.fmtVal(t, flags, verb, rv.t, rv.get(), depth+1)
			return
		}
		t.opaque = "opaque"
		return
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
		if m.methodByName(ti, "Format") != nil {
			t.opaque = "custom formatter"
			return
		}
		if !strings.Contains(flags, "#") {
			for _, nm := range []string{"Error", "String"} {
				f := m.methodByName(ti, nm)
				if f == nil || f.sig.Params().Len() != 0 || f.sig.Results().Len() != 1 {
					continue
				}
				if m.ti(f.sig.Results().At(0).Type()).K != KString {
					continue
				}
				if ti.K == KPtr && v.P == nil {
					s := func() (s V) {
						d, sl, rg := m.depth, len(m.stack), m.regs
						defer func() {
							if e := recover(); e != nil {
								if _, ok := e.(goPanic); !ok {
									panic(e)
								}
								m.depth, m.stack, m.regs = d, m.stack[:sl], rg
								s = str("<nil>")
							}
						}()
						return m.call(f, []V{v}, nil)
					}()
					t.v(s)
					return
				}
				s := m.call(f, []V{v}, nil)
				m.fmtStr(t, flags, verb, s)
				return
			}
		}
	}
	switch ti.K {
	case KBool:
		if v.P != nil {
			t.lazy(func() []V {
				return bytesV([]byte(fmt.Sprintf("%"+flags+string(rune(verb)), m.branch(v))))
			})
			return
		}
		t.s(fmt.Sprintf("%"+flags+string(rune(verb)), v.U != 0))
	case KInt:
		if v.P != nil {
			if (verb == 'x' || verb == 'X') && flags == fmt.Sprintf("0%d", ti.W/4) {
				m.fmtHex(t, verb, m.splitBytes(v.P.(*smt.Term)))
				return
			}
			tm := v.P.(*smt.Term)
			bg := m.ubig(tm)
			if ti.Signed {
				bg = m.sbig(tm)
			}
			if !m.symInt(t, flags, verb, bg) {
				t.opaque = "symbolic integer"
			}
			return
		}
		if ti.Signed {
			t.s(fmt.Sprintf("%"+flags+string(rune(verb)), sx(v.U, ti.W)))
		} else if ti.W == 8 {
			t.s(fmt.Sprintf("%"+flags+string(rune(verb)), uint8(v.U)))
		} else {
			t.s(fmt.Sprintf("%"+flags+string(rune(verb)), v.U))
		}
	case KFloat:
		if v.P != nil {
			t.opaque = "symbolic float"
			return
		}
		t.s(fmt.Sprintf("%"+flags+string(rune(verb)), math.Float64frombits(v.U)))
	case KString:
		m.fmtStr(t, flags, verb, v)
	case KSlice, KArray:
		var e []V
		if ti.K == KSlice {
			e = slElems(v)
		} else {
			e = v.P.(*Agg).E
		}
		if ti.Elem.K == KInt && ti.Elem.W == 8 && !ti.Elem.Signed {
			switch verb {
			case 'x', 'X', 's', 'q':
				m.fmtStr(t, flags, verb, mkStr(append([]V{}, e...)))
				return
			}
		}
		t.s("[")
		for i, x := range e {
			if i > 0 {
				t.s(" ")
			}
			m.fmtElem(t, flags, verb, ti.Elem, x, depth+1)
		}
		t.s("]")
	case KStruct:
		st := ti.U.(*types.Struct)
		t.s("{")
		for i, f := range ti.F {
			if i > 0 {
				t.s(" ")
			}
			if strings.Contains(flags, "+") {
				t.s(st.Field(i).Name() + ":")
			}
			fv := v.P.(*Agg).E[i]
			if !st.Field(i).Exported() && f.K != KIface && f.K != KPtr && f.K != KStruct {
				// methods of unexported fields are not called
				m.fmtPlain(t, flags, verb, f, fv, depth+1)
			} else {
				m.fmtElem(t, flags, verb, f, fv, depth+1)
			}
		}
		t.s("}")
	case KMap:
		t.s("map[")
		var parts []string
		if v.P != nil {
			for _, e := range v.P.(*Map).ents {
				if e.dead {
					continue
				}
				x := &txt{}
				m.fmtElem(x, flags, verb, ti.Key, e.k, depth+1)
				x.s(":")
				m.fmtElem(x, flags, verb, ti.Elem, e.v, depth+1)
				s, ok := concreteStr(m.txtVal(x))
				if !ok {
					t.opaque = "map text"
					return
				}
				parts = append(parts, s)
			}
		}
		sort.Strings(parts)
		t.s(strings.Join(parts, " ") + "]")
	case KPtr:
		if v.P == nil {
			t.s("<nil>")
			return
		}
		if depth == 0 && ti.Elem.agg() {
			t.s("&")
			m.fmtVal(t, flags, verb, ti.Elem, *m.ptr(v), depth+1)
			return
		}
		t.opaque = "address"
	case KIface:
		m.fmtElem(t, flags, verb, ti, v, depth)
	case KFunc, KChan, KUnsafe:
		if v.P == nil {
			t.s("<nil>")
			return
		}
		t.opaque = "address"
	default:
		t.opaque = "value"
	}
}

func (m *M) fmtPlain(t *txt, flags string, verb byte, ti *TI, v V, depth int) {
	if ti.K == KInt || ti.K == KBool || ti.K == KString || ti.K == KFloat {
		u := m.ti(ti.U)
		m.fmtVal(t, flags, verb, u, v, depth)
		return
	}
	t.opaque = "unexported field"
}

func (m *M) fmtElem(t *txt, flags string, verb byte, ti *TI, v V, depth int) {
	if ti.K == KIface {
		if v.P == nil {
			t.s("<nil>")
			return
		}
		i := v.P.(*Iface)
		m.fmtVal(t, flags, verb, i.T, i.V, depth)
		return
	}
	m.fmtVal(t, flags, verb, ti, v, depth)
}

func (m *M) fmtHex(t *txt, verb byte, b []V) {
	for _, x := range b {
		if x.P == nil {
			t.s(fmt.Sprintf("%02"+string(rune(verb)), uint8(x.U)))
			continue
		}
		c := m.c
		for _, lo := range []int{4, 0} {
			nb := c.ZExt(c.Extract(x.P.(*smt.Term), lo+3, lo), 8)
			base := uint64('a' - 10)
			if verb == 'X' {
				base = 'A' - 10
			}
			t.b = append(t.b, tv(c.Ite(c.Ult(nb, c.Const(8, 10)), c.Add(nb, c.Const(8, '0')), c.Add(nb, c.Const(8, base)))))
		}
	}
}

func (m *M) fmtStr(t *txt, flags string, verb byte, s V) {
	if o, ok := s.P.(*OStr); ok {
		if o.Force != nil && flags == "" {
			switch verb {
			case 's', 'v':
				t.lazy(o.Force)
				return
			}
		}
		t.opaque = o.Why
		return
	}
	if cs, ok := concreteStr(s); ok {
		t.s(fmt.Sprintf("%"+flags+string(rune(verb)), cs))
		return
	}
	if flags != "" && flags != "+" {
		t.opaque = "padded symbolic text"
		return
	}
	switch verb {
	case 's', 'v':
		t.v(s)
	case 'x', 'X':
		m.fmtHex(t, verb, strBytes(s))
	default:
		t.opaque = "quoted symbolic text"
	}
}

var _ = big.NewInt
