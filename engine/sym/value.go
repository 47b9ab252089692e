// Package sym executes go/ssa functions symbolically.
package sym

import (
	"fmt"
	"go/types"
	"math/big"

	"verif/engine/smt"
)

// V is one runtime value. Concrete integers, booleans and floats are in U
// with P nil; symbolic integers and booleans are *smt.Term in P. V{} is the
// zero value of every scalar, string, pointer, slice, map, func and interface.
type V struct {
	U uint64
	P any
}

// Agg holds the elements of a struct or array value.
type Agg struct{ E []V }

// Back is the backing array of a slice: V{U: packed off/len/cap, P: *Back}.
type Back Agg

// SStr is a string with (some) symbolic bytes.
type SStr struct{ B []V }

// OStr is text whose content the engine does not track.
type OStr struct {
	Why   string
	Force func() []V // renders the text, if the engine can
}

type Iface struct {
	T *TI
	V V
}

type Closure struct {
	Fn   *Fn
	Free []V
	// Nat is a native function value.
	Nat  func(m *M, args []V) V
	Name string
}

type Tuple []V

// SPtr is a pointer to an array element at a symbolic index.
type SPtr struct {
	E   []V
	Idx *smt.Term
}

// SData is the result of unsafe.SliceData / unsafe.StringData.
type SData struct {
	B   *Back
	Off int
	S   V
}

type Chan struct {
	buf    []V
	cap    int
	closed bool
}

type SBig struct{ T *smt.Term } // signed two's complement, exact

const (
	slBits = 21
	slMask = 1<<slBits - 1
)

func mkSlice(b *Back, off, n, cp int) V {
	if cp > slMask || off > slMask {
		panic(abort{kind: "unsupported", msg: "slice too large"})
	}
	return V{U: uint64(off)<<(2*slBits) | uint64(n)<<slBits | uint64(cp), P: b}
}

func slParts(v V) (b *Back, off, n, cp int) {
	if v.P == nil {
		return nil, 0, 0, 0
	}
	b = v.P.(*Back)
	return b, int(v.U >> (2 * slBits)), int(v.U>>slBits) & slMask, int(v.U) & slMask
}

// slElems returns the live elements of a slice.
func slElems(v V) []V {
	b, off, n, _ := slParts(v)
	if b == nil {
		return nil
	}
	return b.E[off : off+n : off+n]
}

func slLen(v V) int { return int(v.U>>slBits) & slMask }

func newSlice(e []V) V {
	return mkSlice(&Back{E: e}, 0, len(e), len(e))
}

func bytesV(b []byte) []V {
	e := make([]V, len(b))
	for i, x := range b {
		e[i].U = uint64(x)
	}
	return e
}

func strBytes(v V) []V {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		e := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			e[i].U = uint64(s[i])
		}
		return e
	case *SStr:
		return s.B
	case *OStr:
		if s.Force != nil {
			return s.Force()
		}
		panic(abort{kind: "unsupported", msg: "content of formatted text: " + s.Why})
	}
	panic(fmt.Sprintf("strBytes %T", v.P))
}

func strLen(v V) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.B)
	case *OStr:
		if s.Force != nil {
			return len(s.Force())
		}
		panic(abort{kind: "unsupported", msg: "length of formatted text: " + s.Why})
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

// mkStr builds a string value from bytes; the slice must not be shared.
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		if x.P != nil {
			return V{P: &SStr{b}}
		}
		bs[i] = byte(x.U)
	}
	return V{P: string(bs)}
}

func str(s string) V {
	if s == "" {
		return V{}
	}
	return V{P: s}
}

// concreteBytes returns the bytes if all are concrete.
func concreteBytes(b []V) ([]byte, bool) {
	bs := make([]byte, len(b))
	for i, x := range b {
		if x.P != nil {
			return nil, false
		}
		bs[i] = byte(x.U)
	}
	return bs, true
}

func concreteStr(v V) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func bv(b bool) V {
	if b {
		return V{U: 1}
	}
	return V{}
}

func iv(i int) V { return V{U: uint64(i)} }

func mask(w int) uint64 {
	if w >= 64 || w == 0 {
		if w == 0 {
			return 1
		}
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func sx(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	return int64(u<<uint(64-w)) >> uint(64-w)
}

func (m *M) term(v V, w int) *smt.Term {
	if v.P != nil {
		return v.P.(*smt.Term)
	}
	if w == 0 {
		return m.c.Bool(v.U != 0)
	}
	return m.c.Const(w, v.U)
}

func tv(t *smt.Term) V {
	if t.Op == smt.OConst && t.W <= 64 {
		return V{U: t.N}
	}
	return V{P: t}
}

// catBytes joins bytes into one big-endian term.
func (m *M) catBytes(b []V) *smt.Term {
	all := true
	for _, x := range b {
		if x.P != nil {
			all = false
			break
		}
	}
	if all {
		bs, _ := concreteBytes(b)
		return m.c.BigConst(8*len(b), new(big.Int).SetBytes(bs))
	}
	ts := make([]*smt.Term, 0, len(b))
	for i := 0; i < len(b); {
		if b[i].P == nil {
			j := i
			var bs []byte
			for j < len(b) && b[j].P == nil {
				bs = append(bs, byte(b[j].U))
				j++
			}
			ts = append(ts, m.c.BigConst(8*len(bs), new(big.Int).SetBytes(bs)))
			i = j
			continue
		}
		ts = append(ts, b[i].P.(*smt.Term))
		i++
	}
	return m.c.Concat(ts...)
}

// splitBytes cuts a term of 8n bits into n bytes, most significant first.
func (m *M) splitBytes(t *smt.Term) []V {
	n := t.W / 8
	out := make([]V, n)
	for i := range out {
		lo := 8 * (n - 1 - i)
		out[i] = tv(m.c.Extract(t, lo+7, lo))
	}
	return out
}

// ---- types ----

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt // signed or unsigned integer, uintptr
	KFloat
	KComplex
	KString
	KPtr
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KOpaque
	KTuple
	KUnsafe
)

// TI describes a type; TIs are interned per machine, so identity of types is
// identity of TIs.
type TI struct {
	T      types.Type
	U      types.Type // underlying
	K      Kind
	W      int // width of KInt / KFloat
	Signed bool
	Elem   *TI // elem of ptr, slice, array, map value, chan
	Key    *TI
	N      int // array length
	F      []*TI
	zeroV  V
	meth   map[string]*Fn
	methOK map[string]bool
	id     int
	msCnt  int
}

var opaqueNames = map[string]bool{
	"sync.Mutex": true, "sync.RWMutex": true, "sync.Once": true, "sync.Map": true, "sync.WaitGroup": true,
	"math/big.Int": true, "math/big.Rat": true, "reflect.Value": true, "sync/atomic.Value": true,
	"sync/atomic.Int32": true, "sync/atomic.Int64": true, "sync/atomic.Uint32": true, "sync/atomic.Uint64": true, "sync/atomic.Bool": true,
}

func opaque(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	// types defined as big.Int
	if st, ok := n.Underlying().(*types.Struct); ok && st.NumFields() == 2 && st.Field(1).Name() == "abs" && st.Field(1).Pkg() != nil && st.Field(1).Pkg().Path() == "math/big" {
		return true
	}
	nm := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	if nm == "sync/atomic.Pointer" {
		return true
	}
	return opaqueNames[nm]
}

func (m *M) ti(t types.Type) *TI {
	if x := m.tiFast[t]; x != nil {
		return x
	}
	if a := types.Unalias(t); a != t {
		x := m.ti(a)
		m.tiFast[t] = x
		return x
	}
	if x := m.tiMap.At(t); x != nil {
		m.tiFast[t] = x.(*TI)
		return x.(*TI)
	}
	x := &TI{T: t, U: t.Underlying(), id: m.tiMap.Len() + 1}
	m.tiMap.Set(t, x)
	m.tiFast[t] = x
	if opaque(t) {
		x.K = KOpaque
		return x
	}
	switch u := x.U.(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			x.K = KBool
		case info&types.IsInteger != 0:
			x.K = KInt
			x.Signed = info&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				x.W = 8
			case types.Int16, types.Uint16:
				x.W = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				x.W = 32
			default:
				x.W = 64
			}
		case info&types.IsFloat != 0:
			x.K = KFloat
			x.W = 64
			if u.Kind() == types.Float32 {
				x.W = 32
			}
		case info&types.IsComplex != 0:
			x.K = KComplex
		case info&types.IsString != 0:
			x.K = KString
		case u.Kind() == types.UnsafePointer:
			x.K = KUnsafe
		default:
			x.K = KPtr // untyped nil
		}
	case *types.Pointer:
		x.K = KPtr
		x.Elem = m.ti(u.Elem())
	case *types.Slice:
		x.K = KSlice
		x.Elem = m.ti(u.Elem())
	case *types.Array:
		x.K = KArray
		x.Elem = m.ti(u.Elem())
		x.N = int(u.Len())
	case *types.Struct:
		x.K = KStruct
		for i := 0; i < u.NumFields(); i++ {
			x.F = append(x.F, m.ti(u.Field(i).Type()))
		}
	case *types.Map:
		x.K = KMap
		x.Key = m.ti(u.Key())
		x.Elem = m.ti(u.Elem())
	case *types.Chan:
		x.K = KChan
		x.Elem = m.ti(u.Elem())
	case *types.Signature:
		x.K = KFunc
	case *types.Interface:
		x.K = KIface
	case *types.Tuple:
		x.K = KTuple
		for i := 0; i < u.Len(); i++ {
			x.F = append(x.F, m.ti(u.At(i).Type()))
		}
	default:
		x.K = KInvalid
	}
	return x
}

func (x *TI) agg() bool { return x.K == KStruct || x.K == KArray }

// Zero makes a fresh zero value.
func (x *TI) Zero() V {
	switch x.K {
	case KStruct:
		e := make([]V, len(x.F))
		for i, f := range x.F {
			if f.K == KStruct || f.K == KArray {
				e[i] = f.Zero()
			}
		}
		return V{P: &Agg{e}}
	case KArray:
		e := make([]V, x.N)
		if x.Elem.agg() {
			for i := range e {
				e[i] = x.Elem.Zero()
			}
		}
		return V{P: &Agg{e}}
	case KTuple:
		e := make(Tuple, len(x.F))
		for i, f := range x.F {
			e[i] = f.Zero()
		}
		return V{P: e}
	}
	return V{}
}

// copyV copies an aggregate so that it shares no slots with v.
func copyV(v V) V {
	a, ok := v.P.(*Agg)
	if !ok {
		return v
	}
	e := make([]V, len(a.E))
	for i, x := range a.E {
		if _, ok := x.P.(*Agg); ok {
			x = copyV(x)
		}
		e[i] = x
	}
	return V{P: &Agg{e}}
}

type trailEnt struct {
	p   *V
	old V
}

func (m *M) set(p *V, v V) {
	m.trail = append(m.trail, trailEnt{p, *p})
	*p = v
}

// store writes v into the slot, element-wise for aggregates so that pointers
// to inner slots stay valid.
func (m *M) store(p *V, v V) {
	if a, ok := v.P.(*Agg); ok {
		d, ok := p.P.(*Agg)
		if !ok {
			m.set(p, copyV(v))
			return
		}
		if d == a {
			return
		}
		for i := range a.E {
			m.store(&d.E[i], a.E[i])
		}
		return
	}
	m.set(p, v)
}

func (m *M) ptr(v V) *V {
	switch p := v.P.(type) {
	case *V:
		return p
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SPtr:
		i := m.concIdx(p.Idx)
		return &p.E[i]
	case *SData:
		if p.B != nil {
			return &p.B.E[p.Off]
		}
	}
	panic(abort{kind: "unsupported", msg: fmt.Sprintf("dereference of %T", v.P)})
}
