package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strings"

	"verif/engine/smt"
)

const tokGTR = token.GTR

var tUint8 = types.Typ[types.Uint8]

func (m *M) tInt() *TI { return m.ti(types.Typ[types.Int]) }

type natFn func(m *M, fr *frame, a []V) V

func (m *M) named(pkg, name string) *TI {
	k := pkg + "." + name
	if t := m.natTIs[k]; t != nil {
		return t
	}
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	t := m.ti(o.Type())
	m.natTIs[k] = t
	return t
}

// mkError makes an error value (*errors.errorString) with the given text.
func (m *M) mkError(msg string) V { return m.mkErrorV(str(msg)) }

func (m *M) mkErrorV(msg V) V {
	t := m.named("errors", "errorString")
	pt := m.ti(types.NewPointer(t.T))
	return V{P: &Iface{pt, V{P: &V{P: &Agg{[]V{msg}}}}}}
}

func (m *M) mkPanicStr(msg string) V {
	return V{P: &Iface{m.ti(types.Typ[types.String]), str(msg)}}
}

var natives = map[string]natFn{}

func noop(m *M, fr *frame, a []V) V { return V{} }

// zeroRes returns zero results of the function's signature.
func zeroRes(m *M, fr *frame, a []V) V {
	r := m.ti(fr.fn.sig.Results())
	switch len(r.F) {
	case 0:
		return V{}
	case 1:
		return r.F[0].Zero()
	}
	return r.Zero()
}

func (m *M) lookupNative(fn *Fn) func(m *M, fr *frame, args []V) V {
	n := fn.Name
	if f, ok := natives[n]; ok {
		return f
	}
	// package initialisers run by need; initPkg runs a body itself
	if fn.F.Name() == "init" && fn.F.Synthetic == "package initializer" {
		return noop
	}
	if strings.HasPrefix(n, "(*math/big.Int).") {
		name := n[len("(*math/big.Int)."):]
		if f, ok := bigFns[name]; ok {
			return func(m *M, fr *frame, a []V) V { return f(m, a) }
		}
		return func(m *M, fr *frame, a []V) V { m.unsupported("%s", n); return V{} }
	}
	if strings.HasPrefix(n, "(*math/big.Rat).") {
		name := n[len("(*math/big.Rat)."):]
		if f, ok := ratFns[name]; ok {
			return func(m *M, fr *frame, a []V) V { return f(m, a) }
		}
		return func(m *M, fr *frame, a []V) V { m.unsupported("%s", n); return V{} }
	}
	if strings.HasPrefix(n, "(reflect.Value).") {
		name := n[len("(reflect.Value)."):]
		return func(m *M, fr *frame, a []V) V { return m.reflectValueCall(name, a) }
	}
	if strings.HasPrefix(n, "(*reflect.rtype).") {
		name := n[len("(*reflect.rtype)."):]
		return func(m *M, fr *frame, a []V) V { return m.rtypeCall(name, a) }
	}
	if fn.pkg == "reflect" && strings.HasPrefix(n, "reflect.") {
		name := n[len("reflect."):]
		if token.IsExported(name) {
			return func(m *M, fr *frame, a []V) V {
				v, ok := m.reflectFn(name, a)
				if !ok {
					if fn.F.Blocks != nil && (name == "VisibleFields" || strings.HasPrefix(name, "TypeFor")) {
						return m.callRaw(fn, a)
					}
					m.unsupported("%s", n)
				}
				return v
			}
		}
	}
	if fn.inRepo && fn.F.Signature.Recv() == nil && fn.F.Parent() == nil && strings.HasPrefix(fn.F.Name(), "v") {
		if f, ok := harnessFns[fn.F.Name()]; ok {
			if pos := m.prog.Fset.Position(fn.F.Pos()); strings.Contains(pos.Filename, "zz_verif_") {
				return f
			}
		}
	}
	short := fn.pkg
	switch {
	case strings.HasSuffix(short, "go-common/log") && !m.cfg.RealLog:
		nm := fn.F.Name()
		for _, p := range []string{"Debug", "Info", "Warn", "Error", "Must", "SetFields", "Trace", "Print"} {
			if strings.HasPrefix(nm, p) {
				return noop
			}
		}
		if fn.F.Name() != "init" {
			return func(m *M, fr *frame, a []V) V {
				if fn.F.Blocks == nil {
					m.unsupported("%s", n)
				}
				return m.callRaw(fn, a)
			}
		}
	case short == "github.com/sirupsen/logrus":
		if m.cfg.RealLog {
			return nil
		}
		return zeroRes
	case short == "sync/atomic":
		return m.atomicNative(fn)
	case short == "math":
		if f, ok := mathFns[fn.F.Name()]; ok && fn.F.Signature.Recv() == nil {
			return func(m *M, fr *frame, a []V) V {
				for _, x := range a {
					if x.P != nil {
						m.unsupported("symbolic math.%s", fn.F.Name())
					}
				}
				return V{U: math.Float64bits(f(math.Float64frombits(a[0].U)))}
			}
		}
	case short == "runtime" || short == "runtime/debug":
		switch fn.F.Name() {
		case "Stack", "Callers", "NumCPU", "GOMAXPROCS", "GC", "KeepAlive", "Gosched", "PrintStack", "SetFinalizer", "Caller", "NumGoroutine":
			return zeroRes
		}
	}
	return nil
}

// callRaw runs the function's own body even though a native exists.
func (m *M) callRaw(fn *Fn, a []V) V {
	save := fn.native
	fn.native = nil
	defer func() { fn.native = save }()
	return m.call(fn, a, nil)
}

var mathFns = map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp, "Round": math.Round, "Abs": math.Abs}

// atomicNative handles the functions and methods of sync/atomic.
func (m *M) atomicNative(fn *Fn) natFn {
	n := fn.F.Name()
	sig := fn.F.Signature
	if recv := sig.Recv(); recv != nil {
		rt := recv.Type().String()
		isVal := strings.HasSuffix(rt, "atomic.Value")
		isPtr := strings.Contains(rt, "atomic.Pointer[")
		isBool := strings.HasSuffix(rt, "atomic.Bool")
		w := 64
		if strings.HasSuffix(rt, "32") {
			w = 32
		}
		eqt := func(m *M, a, b V) V {
			if isVal {
				return m.eq(m.ti(types.NewInterfaceType(nil, nil)), a, b)
			}
			if isPtr {
				return bv(a.P == b.P)
			}
			if isBool {
				return m.eqBool(a, b)
			}
			if a.P == nil && b.P == nil {
				return bv(a.U == b.U)
			}
			return tv(m.c.Eq(m.term(a, w), m.term(b, w)))
		}
		switch n {
		case "Load":
			return func(m *M, fr *frame, a []V) V { m.yieldPoint(); return *m.ptr(a[0]) }
		case "Store":
			return func(m *M, fr *frame, a []V) V { m.yieldPoint(); m.set(m.ptr(a[0]), a[1]); return V{} }
		case "Swap":
			return func(m *M, fr *frame, a []V) V {
				m.yieldPoint()
				o := *m.ptr(a[0])
				m.set(m.ptr(a[0]), a[1])
				return o
			}
		case "CompareAndSwap":
			return func(m *M, fr *frame, a []V) V {
				m.yieldPoint()
				p := m.ptr(a[0])
				if m.branch(eqt(m, *p, a[1])) {
					m.set(p, a[2])
					return V{U: 1}
				}
				return V{}
			}
		case "Add":
			return func(m *M, fr *frame, a []V) V {
				m.yieldPoint()
				p := m.ptr(a[0])
				var r V
				if p.P == nil && a[1].P == nil {
					r = V{U: (p.U + a[1].U) & mask(w)}
				} else {
					r = tv(m.c.Add(m.term(*p, w), m.term(a[1], w)))
				}
				m.set(p, r)
				return r
			}
		}
		return nil
	}
	w := 64
	if strings.HasSuffix(n, "32") {
		w = 32
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(m *M, fr *frame, a []V) V { m.yieldPoint(); return *m.ptr(a[0]) }
	case strings.HasPrefix(n, "Store"):
		return func(m *M, fr *frame, a []V) V { m.yieldPoint(); m.set(m.ptr(a[0]), a[1]); return V{} }
	case strings.HasPrefix(n, "Add"):
		return func(m *M, fr *frame, a []V) V {
			m.yieldPoint()
			p := m.ptr(a[0])
			var r V
			if p.P == nil && a[1].P == nil {
				r = V{U: (p.U + a[1].U) & mask(w)}
			} else {
				r = tv(m.c.Add(m.term(*p, w), m.term(a[1], w)))
			}
			m.set(p, r)
			return r
		}
	case strings.HasPrefix(n, "Swap"):
		return func(m *M, fr *frame, a []V) V {
			m.yieldPoint()
			o := *m.ptr(a[0])
			m.set(m.ptr(a[0]), a[1])
			return o
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(m *M, fr *frame, a []V) V {
			m.yieldPoint()
			p := m.ptr(a[0])
			var c V
			if _, isT := p.P.(*smt.Term); !isT && a[1].P == nil && p.P == nil {
				c = bv(p.U == a[1].U)
			} else if strings.HasSuffix(n, "Pointer") {
				c = bv(p.P == a[1].P)
			} else {
				c = tv(m.c.Eq(m.term(*p, w), m.term(a[1], w)))
			}
			if m.branch(c) {
				m.set(p, a[2])
				return V{U: 1}
			}
			return V{}
		}
	}
	return nil
}

// yieldPoint lets another goroutine run at a synchronisation point.
func (m *M) yieldPoint() {}

// ---- locks ----

const wlock = 1 << 32

func (m *M) lock(p *V, what string) {
	for p.U != 0 {
		m.block(what)
	}
	m.set(p, V{U: wlock})
}

func (m *M) unlock(p *V, what string) {
	if p.U&wlock == 0 {
		panic(abortFatal(m, "fatal error: sync: "+what))
	}
	m.set(p, V{})
}

// abortFatal reports an unrecoverable runtime error of the program.
func abortFatal(m *M, msg string) any {
	if m.replaying() {
		return abort{kind: "infeasible"}
	}
	m.haveModel()
	m.violation("fatal", msg)
	return abort{kind: "violation"}
}

func (m *M) structSlot(p V, t *TI, name string) *V {
	st := t.U.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &m.ptr(p).P.(*Agg).E[i]
		}
	}
	panic("no field " + name)
}

type poolList struct{ vs []V }

func (m *M) bitsLen(v V, w int) V {
	if v.P == nil {
		return iv(bits.Len64(v.U))
	}
	t := v.P.(*smt.Term)
	r := m.c.Const(64, 0)
	for i := 0; i < w; i++ {
		r = m.c.Ite(m.c.Eq(m.c.Extract(t, i, i), m.c.Const(1, 1)), m.c.Const(64, uint64(i+1)), r)
	}
	return tv(r)
}

func (m *M) bitsTZ(v V, w int) V {
	if v.P == nil {
		if v.U == 0 {
			return iv(w)
		}
		return iv(bits.TrailingZeros64(v.U))
	}
	t := v.P.(*smt.Term)
	r := m.c.Const(64, uint64(w))
	for i := w - 1; i >= 0; i-- {
		r = m.c.Ite(m.c.Eq(m.c.Extract(t, i, i), m.c.Const(1, 1)), m.c.Const(64, uint64(i)), r)
	}
	return tv(r)
}

func (m *M) onesCount(v V, w int) V {
	if v.P == nil {
		return iv(bits.OnesCount64(v.U))
	}
	t := v.P.(*smt.Term)
	r := m.c.Const(64, 0)
	for i := 0; i < w; i++ {
		r = m.c.Add(r, m.c.ZExt(m.c.Extract(t, i, i), 64))
	}
	return tv(r)
}

// indexByte finds the first occurrence by forking per element.
func (m *M) indexByte(b []V, c V) V {
	u := m.ti(tUint8)
	for i, x := range b {
		if m.branch(m.eq(u, x, c)) {
			return iv(i)
		}
	}
	return V{U: ^uint64(0)}
}

func (m *M) countByte(b []V, c V) V {
	u := m.ti(tUint8)
	r := V{}
	for _, x := range b {
		e := m.eq(u, x, c)
		r = m.intop(token.ADD, m.tInt(), nil, r, m.ite(e, V{U: 1}, V{}, 64))
	}
	return r
}

func init() {
	regN := func(names string, f natFn) {
		for _, n := range strings.Fields(names) {
			natives[n] = f
		}
	}
	regN("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(m *M, fr *frame, a []V) V {
		m.yieldPoint()
		m.lock(m.ptr(a[0]), "Lock of a lock held by this goroutine")
		return V{}
	})
	regN("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(m *M, fr *frame, a []V) V {
		m.unlock(m.ptr(a[0]), "unlock of unlocked mutex")
		m.yieldPoint()
		return V{}
	})
	regN("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(m *M, fr *frame, a []V) V {
		p := m.ptr(a[0])
		if p.U != 0 {
			return V{}
		}
		m.set(p, V{U: wlock})
		return V{U: 1}
	})
	natives["(*sync.RWMutex).RLock"] = func(m *M, fr *frame, a []V) V {
		m.yieldPoint()
		p := m.ptr(a[0])
		for p.U&wlock != 0 {
			m.block("RLock of a lock held by this goroutine")
		}
		m.set(p, V{U: p.U + 1})
		return V{}
	}
	natives["(*sync.RWMutex).RUnlock"] = func(m *M, fr *frame, a []V) V {
		p := m.ptr(a[0])
		if p.U == 0 || p.U&wlock != 0 {
			panic(abortFatal(m, "fatal error: sync: RUnlock of unlocked RWMutex"))
		}
		m.set(p, V{U: p.U - 1})
		m.yieldPoint()
		return V{}
	}
	natives["(*sync.Once).Do"] = func(m *M, fr *frame, a []V) V {
		p := m.ptr(a[0])
		if p.U == 0 {
			m.set(p, V{U: 1})
			m.callV(a[1], nil)
		}
		return V{}
	}
	natives["(*sync.Pool).Get"] = func(m *M, fr *frame, a []V) V {
		t := m.named("sync", "Pool")
		s := m.poolSlot(a[0])
		if l, ok := s.P.(*poolList); ok && len(l.vs) > 0 {
			v := l.vs[len(l.vs)-1]
			m.set(s, V{P: &poolList{l.vs[: len(l.vs)-1 : len(l.vs)-1]}})
			return v
		}
		_ = t
		nf := m.poolNew(a[0])
		if nf.P == nil {
			return V{}
		}
		return m.callV(nf, nil)
	}
	natives["(*sync.Pool).Put"] = func(m *M, fr *frame, a []V) V {
		if a[1].P == nil {
			return V{}
		}
		s := m.poolSlot(a[0])
		var vs []V
		if l, ok := s.P.(*poolList); ok {
			vs = l.vs
		}
		m.set(s, V{P: &poolList{append(vs[:len(vs):len(vs)], a[1])}})
		return V{}
	}
	anyMap := func(m *M, p *V) *Map {
		if p.P == nil {
			e := types.NewInterfaceType(nil, nil)
			m.set(p, V{P: m.newMap(m.ti(types.NewMap(e, e)))})
		}
		return p.P.(*Map)
	}
	natives["(*sync.Map).Load"] = func(m *M, fr *frame, a []V) V {
		mp := anyMap(m, m.ptr(a[0]))
		v, ok := m.mapGet(V{P: mp}, mp.t, a[1])
		return V{P: Tuple{v, bv(ok)}}
	}
	regN("(*sync.Map).Store", func(m *M, fr *frame, a []V) V {
		m.mapSet(V{P: anyMap(m, m.ptr(a[0]))}, a[1], a[2])
		return V{}
	})
	natives["(*sync.Map).LoadOrStore"] = func(m *M, fr *frame, a []V) V {
		mp := anyMap(m, m.ptr(a[0]))
		v, ok := m.mapGet(V{P: mp}, mp.t, a[1])
		if ok {
			return V{P: Tuple{v, V{U: 1}}}
		}
		m.mapSet(V{P: mp}, a[1], a[2])
		return V{P: Tuple{a[2], V{}}}
	}
	natives["(*sync.Map).Delete"] = func(m *M, fr *frame, a []V) V {
		m.mapDelete(V{P: anyMap(m, m.ptr(a[0]))}, a[1])
		return V{}
	}
	natives["(*sync.Map).Range"] = func(m *M, fr *frame, a []V) V {
		it := m.mapIter(V{P: anyMap(m, m.ptr(a[0]))})
		for {
			k, v, ok := it.next(m)
			if !ok || !m.branch(m.callV(a[1], []V{k, v})) {
				return V{}
			}
		}
	}
	regN("(*sync.WaitGroup).Add", func(m *M, fr *frame, a []V) V {
		p := m.ptr(a[0])
		m.set(p, V{U: p.U + a[1].U})
		return V{}
	})
	natives["(*sync.WaitGroup).Done"] = func(m *M, fr *frame, a []V) V {
		p := m.ptr(a[0])
		m.set(p, V{U: p.U - 1})
		return V{}
	}
	natives["(*sync.WaitGroup).Wait"] = func(m *M, fr *frame, a []V) V {
		for m.ptr(a[0]).U != 0 {
			m.block("WaitGroup.Wait")
		}
		return V{}
	}
	regN("(*strings.Builder).copyCheck runtime.KeepAlive os.Exit time.Sleep fmt.Print fmt.Printf fmt.Println runtime.SetFinalizer", noop)
	regN("os.Getenv (*os.File).Write (*os.File).WriteString (*os.File).Close (*os.File).Sync time.Now time.Since time.runtimeNano", zeroRes)

	// bytealg and friends
	regN("internal/bytealg.IndexByte", func(m *M, fr *frame, a []V) V { return m.indexByte(slElems(a[0]), a[1]) })
	regN("internal/bytealg.IndexByteString", func(m *M, fr *frame, a []V) V { return m.indexByte(strBytes(a[0]), a[1]) })
	regN("internal/bytealg.Count", func(m *M, fr *frame, a []V) V { return m.countByte(slElems(a[0]), a[1]) })
	regN("internal/bytealg.CountString", func(m *M, fr *frame, a []V) V { return m.countByte(strBytes(a[0]), a[1]) })
	regN("internal/bytealg.Compare bytes.Compare", func(m *M, fr *frame, a []V) V { return m.bytesCmp(slElems(a[0]), slElems(a[1])) })
	regN("internal/bytealg.CompareString strings.Compare", func(m *M, fr *frame, a []V) V { return m.bytesCmp(strBytes(a[0]), strBytes(a[1])) })
	regN("internal/bytealg.Equal bytes.Equal", func(m *M, fr *frame, a []V) V { return m.bytesEq(slElems(a[0]), slElems(a[1])) })
	regN("internal/bytealg.MakeNoZero", func(m *M, fr *frame, a []V) V {
		n := m.concretize(a[0], 64)
		return m.makeSlice(m.ti(tUint8), n, n)
	})
	regN("bytes.HasPrefix", func(m *M, fr *frame, a []V) V {
		x, y := slElems(a[0]), slElems(a[1])
		if len(x) < len(y) {
			return V{}
		}
		return m.bytesEq(x[:len(y)], y)
	})
	regN("bytes.HasSuffix", func(m *M, fr *frame, a []V) V {
		x, y := slElems(a[0]), slElems(a[1])
		if len(x) < len(y) {
			return V{}
		}
		return m.bytesEq(x[len(x)-len(y):], y)
	})
	sub := func(x, y []V, m *M) V {
		for i := 0; i+len(y) <= len(x); i++ {
			if m.branch(m.bytesEq(x[i:i+len(y)], y)) {
				return iv(i)
			}
		}
		return V{U: ^uint64(0)}
	}
	regN("bytes.Index", func(m *M, fr *frame, a []V) V { return sub(slElems(a[0]), slElems(a[1]), m) })
	regN("internal/stringslite.Clone strings.Clone", func(m *M, fr *frame, a []V) V { return a[0] })
	regN("strings.Index", func(m *M, fr *frame, a []V) V { return sub(strBytes(a[0]), strBytes(a[1]), m) })

	// math
	regN("math.Float64bits math.Float64frombits", func(m *M, fr *frame, a []V) V { return a[0] })
	natives["math.Float32bits"] = func(m *M, fr *frame, a []V) V {
		return V{U: uint64(math.Float32bits(float32(math.Float64frombits(a[0].U))))}
	}
	natives["math.Float32frombits"] = func(m *M, fr *frame, a []V) V {
		return V{U: math.Float64bits(float64(math.Float32frombits(uint32(a[0].U))))}
	}
	natives["math.IsNaN"] = func(m *M, fr *frame, a []V) V { return bv(math.IsNaN(math.Float64frombits(a[0].U))) }
	natives["math.IsInf"] = func(m *M, fr *frame, a []V) V {
		return bv(math.IsInf(math.Float64frombits(a[0].U), int(int64(a[1].U))))
	}
	for w, s := range map[int]string{64: "64", 32: "32", 16: "16", 8: "8"} {
		w := w
		regN("math/bits.Len"+s, func(m *M, fr *frame, a []V) V { return m.bitsLen(a[0], w) })
		regN("math/bits.LeadingZeros"+s, func(m *M, fr *frame, a []V) V {
			return m.intop(token.SUB, m.tInt(), nil, iv(w), m.bitsLen(a[0], w))
		})
		regN("math/bits.TrailingZeros"+s, func(m *M, fr *frame, a []V) V { return m.bitsTZ(a[0], w) })
		regN("math/bits.OnesCount"+s, func(m *M, fr *frame, a []V) V { return m.onesCount(a[0], w) })
	}
	regN("math/bits.Len", func(m *M, fr *frame, a []V) V { return m.bitsLen(a[0], 64) })
	regN("math/bits.LeadingZeros", func(m *M, fr *frame, a []V) V {
		return m.intop(token.SUB, m.tInt(), nil, iv(64), m.bitsLen(a[0], 64))
	})
	regN("math/bits.TrailingZeros", func(m *M, fr *frame, a []V) V { return m.bitsTZ(a[0], 64) })
	regN("math/bits.OnesCount", func(m *M, fr *frame, a []V) V { return m.onesCount(a[0], 64) })
	regN("math/bits.Mul64 math/bits.Mul", func(m *M, fr *frame, a []V) V {
		if a[0].P == nil && a[1].P == nil {
			h, l := bits.Mul64(a[0].U, a[1].U)
			return V{P: Tuple{V{U: h}, V{U: l}}}
		}
		p := m.c.Mul(m.c.ZExt(m.term(a[0], 64), 128), m.c.ZExt(m.term(a[1], 64), 128))
		return V{P: Tuple{tv(m.c.Extract(p, 127, 64)), tv(m.c.Extract(p, 63, 0))}}
	})
	regN("math/bits.Add64 math/bits.Add", func(m *M, fr *frame, a []V) V {
		if a[0].P == nil && a[1].P == nil && a[2].P == nil {
			h, l := bits.Add64(a[0].U, a[1].U, a[2].U)
			return V{P: Tuple{V{U: h}, V{U: l}}}
		}
		z := func(i int) *smt.Term { return m.c.ZExt(m.term(a[i], 64), 65) }
		s := m.c.Add(m.c.Add(z(0), z(1)), z(2))
		return V{P: Tuple{tv(m.c.Extract(s, 63, 0)), tv(m.c.ZExt(m.c.Extract(s, 64, 64), 64))}}
	})
	regN("math/bits.Sub64 math/bits.Sub", func(m *M, fr *frame, a []V) V {
		if a[0].P == nil && a[1].P == nil && a[2].P == nil {
			h, l := bits.Sub64(a[0].U, a[1].U, a[2].U)
			return V{P: Tuple{V{U: h}, V{U: l}}}
		}
		z := func(i int) *smt.Term { return m.c.ZExt(m.term(a[i], 64), 65) }
		s := m.c.Sub(m.c.Sub(z(0), z(1)), z(2))
		return V{P: Tuple{tv(m.c.Extract(s, 63, 0)), tv(m.c.ZExt(m.c.Extract(s, 64, 64), 64))}}
	})

	// fmt
	variadic := func(a V) []V { return slElems(a) }
	natives["fmt.Sprintf"] = func(m *M, fr *frame, a []V) V { return m.sprintf(a[0], variadic(a[1])) }
	natives["fmt.Sprint"] = func(m *M, fr *frame, a []V) V { return m.sprint(variadic(a[0]), false) }
	natives["fmt.Sprintln"] = func(m *M, fr *frame, a []V) V { return m.sprint(variadic(a[0]), true) }
	natives["fmt.Errorf"] = func(m *M, fr *frame, a []V) V {
		msg := V{P: &OStr{Why: "error text"}}
		f, _ := concreteStr(a[0])
		if strings.Contains(f, "%w") {
			k := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
					j++
				}
				if j < len(f) && f[j] == 'w' {
					ar := variadic(a[1])
					if k < len(ar) && ar[k].P != nil {
						if t := m.named("fmt", "wrapError"); t != nil {
							pt := m.ti(types.NewPointer(t.T))
							return V{P: &Iface{pt, V{P: &V{P: &Agg{[]V{msg, ar[k]}}}}}}
						}
					}
				}
				if j < len(f) && f[j] != '%' {
					k++
				}
				i = j
			}
		}
		if len(variadic(a[1])) == 0 && !strings.Contains(f, "%") {
			msg = a[0]
		}
		return m.mkErrorV(msg)
	}
	fp := func(text func(m *M, a []V) V) natFn {
		return func(m *M, fr *frame, a []V) V {
			s := text(m, a)
			if a[0].P == nil {
				return V{P: Tuple{V{}, V{}}}
			}
			i := a[0].P.(*Iface)
			w := m.methodByName(i.T, "Write")
			return m.call(w, []V{i.V, newSlice(append([]V{}, strBytes(s)...))}, nil)
		}
	}
	natives["fmt.Fprintf"] = fp(func(m *M, a []V) V { return m.sprintf(a[1], variadic(a[2])) })
	natives["fmt.Fprint"] = fp(func(m *M, a []V) V { return m.sprint(variadic(a[1]), false) })
	natives["fmt.Fprintln"] = fp(func(m *M, a []V) V { return m.sprint(variadic(a[1]), true) })

	// errors
	natives["errors.Is"] = func(m *M, fr *frame, a []V) V {
		if a[0].P == nil || a[1].P == nil {
			return bv(a[0].P == nil && a[1].P == nil)
		}
		et := m.ti(types.Universe.Lookup("error").Type())
		cmp := types.Comparable(a[1].P.(*Iface).T.T)
		var walk func(e V, d int) bool
		walk = func(e V, d int) bool {
			if e.P == nil || d > 50 {
				return false
			}
			if cmp && m.branch(m.eq(et, e, a[1])) {
				return true
			}
			i := e.P.(*Iface)
			if f := m.methodByName(i.T, "Is"); f != nil && f.sig.Params().Len() == 1 {
				if m.branch(m.call(f, []V{i.V, a[1]}, nil)) {
					return true
				}
			}
			if f := m.methodByName(i.T, "Unwrap"); f != nil {
				r := m.call(f, []V{i.V}, nil)
				if m.ti(f.sig.Results().At(0).Type()).K == KSlice {
					for _, x := range slElems(r) {
						if walk(x, d+1) {
							return true
						}
					}
					return false
				}
				return walk(r, d+1)
			}
			return false
		}
		return bv(walk(a[0], 0))
	}
	natives["errors.As"] = func(m *M, fr *frame, a []V) V {
		if a[1].P == nil {
			panic(goPanic{v: m.mkPanicStr("errors: target cannot be nil"), msg: "errors: target cannot be nil"})
		}
		tg := a[1].P.(*Iface)
		t := tg.T.Elem
		for e := a[0]; e.P != nil; {
			i := e.P.(*Iface)
			if t.K == KIface && m.implements(i.T, t) {
				m.store(m.ptr(tg.V), e)
				return V{U: 1}
			}
			if i.T == t {
				m.store(m.ptr(tg.V), i.V)
				return V{U: 1}
			}
			f := m.methodByName(i.T, "Unwrap")
			if f == nil {
				return V{}
			}
			e = m.call(f, []V{i.V}, nil)
		}
		return V{}
	}
	// sorting: insertion sort calls less on the same data; equal elements keep
	// their order, as the standard library does up to 12 elements
	sortSlice := func(m *M, fr *frame, a []V) V {
		s := a[0].P.(*Iface)
		e := slElems(s.V)
		for i := 1; i < len(e); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.callV(a[1], []V{iv(j), iv(j - 1)})) {
					break
				}
				x, y := copyV(e[j]), copyV(e[j-1])
				m.store(&e[j], y)
				m.store(&e[j-1], x)
			}
		}
		return V{}
	}
	regN("sort.Slice sort.SliceStable", sortSlice)
	natives["sort.Sort"] = func(m *M, fr *frame, a []V) V {
		i := a[0].P.(*Iface)
		less, swap, ln := m.methodByName(i.T, "Less"), m.methodByName(i.T, "Swap"), m.methodByName(i.T, "Len")
		n := m.concretize(m.call(ln, []V{i.V}, nil), 64)
		for p := 1; p < n; p++ {
			for q := p; q > 0; q-- {
				if !m.branch(m.call(less, []V{i.V, iv(q), iv(q - 1)}, nil)) {
					break
				}
				m.call(swap, []V{i.V, iv(q), iv(q - 1)}, nil)
			}
		}
		return V{}
	}
	natives["sort.Stable"] = natives["sort.Sort"]

	// Keccak sponge of golang.org/x/crypto/sha3
	const st = "golang.org/x/crypto/sha3.state"
	field := func(m *M, v V, name string) *V {
		return m.structSlot(v, m.named("golang.org/x/crypto/sha3", "state"), name)
	}
	natives["(*"+st+").Write"] = func(m *M, fr *frame, a []V) V {
		buf := field(m, a[0], "buf")
		m.set(buf, m.appendElems(*buf, slElems(a[1]), m.ti(tUint8)))
		return V{P: Tuple{iv(slLen(a[1])), V{}}}
	}
	natives["(*"+st+").Reset"] = func(m *M, fr *frame, a []V) V {
		m.set(field(m, a[0], "buf"), V{})
		return V{}
	}
	natives["(*"+st+").Sum"] = func(m *M, fr *frame, a []V) V {
		d := m.hashSum(int(field(m, a[0], "rate").U), byte(field(m, a[0], "dsbyte").U), int(field(m, a[0], "outputLen").U), slElems(*field(m, a[0], "buf")))
		return m.appendElems(a[1], d, m.ti(tUint8))
	}
	natives["(*"+st+").Read"] = func(m *M, fr *frame, a []V) V {
		d := m.hashSum(int(field(m, a[0], "rate").U), byte(field(m, a[0], "dsbyte").U), int(field(m, a[0], "outputLen").U), slElems(*field(m, a[0], "buf")))
		out := slElems(a[1])
		if len(out) > len(d) {
			m.unsupported("long read from the sponge")
		}
		m.copyElems(out, d[:len(out)])
		return V{P: Tuple{iv(len(out)), V{}}}
	}
	natives["(*golang.org/x/crypto/ripemd160.digest).Sum"] = nil
	delete(natives, "(*golang.org/x/crypto/ripemd160.digest).Sum")

	natives["math/big.NewInt"] = func(m *M, fr *frame, a []V) V {
		p := V{P: new(V)}
		return bigFns["SetInt64"](m, []V{p, a[0]})
	}
	natives["github.com/ThinkiumGroup/go-common/rlp.byteArrayBytes"] = func(m *M, fr *frame, a []V) V {
		r := m.rv(a[0])
		n := m.concretize(a[1], 64)
		if r.p != nil {
			return mkSlice((*Back)(r.p.P.(*Agg)), 0, n, n)
		}
		m.unsupported("byteArrayBytes of unaddressable array")
		return V{}
	}
	regN("math/rand.Int math/rand.Intn math/rand.Int63 math/rand.Int31n math/rand.Uint32 math/rand.Uint64 math/rand.Float64", func(m *M, fr *frame, a []V) V {
		m.unsupported("random numbers")
		return V{}
	})
	// text of the golang runtime environment
	natives["os.Stat"] = func(m *M, fr *frame, a []V) V { m.unsupported("os.Stat"); return V{} }
}

func (m *M) poolSlot(p V) *V { return m.structSlot(p, m.named("sync", "Pool"), "local") }
func (m *M) poolNew(p V) V   { return *m.structSlot(p, m.named("sync", "Pool"), "New") }

// ---- functions of the harness ----

var harnessFns map[string]natFn

func init() {
	in := func(kind string, w int) natFn {
		return func(m *M, fr *frame, a []V) V { return m.newInput(kind, "", w) }
	}
	harnessFns = map[string]natFn{
		"vU8":   in("u8", 8),
		"vU16":  in("u16", 16),
		"vU32":  in("u32", 32),
		"vU64":  in("u64", 64),
		"vInt":  in("u64", 64),
		"vI64":  in("u64", 64),
		"vBool": in("bool", 0),
		"vBytes": func(m *M, fr *frame, a []V) V {
			n := m.concretize(a[0], 64)
			e := make([]V, n)
			for i := range e {
				e[i] = m.newInput("u8", "", 8)
			}
			return newSlice(e)
		},
		"vStr": func(m *M, fr *frame, a []V) V {
			n := m.concretize(a[0], 64)
			e := make([]V, n)
			for i := range e {
				e[i] = m.newInput("u8", "", 8)
			}
			return mkStr(e)
		},
		"vChoose": func(m *M, fr *frame, a []V) V {
			n := m.concretize(a[0], 64)
			k := m.choose(n)
			m.inputs = append(m.inputs, Input{Kind: "choose", Val: uint64(k)})
			return iv(k)
		},
		"vConc":   func(m *M, fr *frame, a []V) V { return iv(m.concretize(a[0], 64)) },
		"vAssume": func(m *M, fr *frame, a []V) V { m.assume(a[0]); return V{} },
		"vAssert": func(m *M, fr *frame, a []V) V {
			l, _ := concreteStr(a[1])
			m.assert(a[0], l)
			return V{}
		},
		"vReach": func(m *M, fr *frame, a []V) V {
			l, _ := concreteStr(a[0])
			m.reach[l] = true
			return V{}
		},
		"vBound": func(m *M, fr *frame, a []V) V {
			l, _ := concreteStr(a[0])
			q, t := int(sx(a[1].U, 64)), int(sx(a[2].U, 64))
			v := q
			if m.cfg.Thorough {
				v = t
			}
			m.res.bound(l, v)
			return iv(v)
		},
		"vKnown": func(m *M, fr *frame, a []V) V {
			l, _ := concreteStr(a[0])
			if m.knownHit == nil {
				m.knownHit = map[string]string{}
			}
			if m.branch(a[1]) {
				m.knownHit[l] = "1"
			} else {
				delete(m.knownHit, l)
			}
			return V{}
		},
		"vMapPerm":  func(m *M, fr *frame, a []V) V { m.mapPerm = a[0].U != 0; return V{} },
		"vSymbolic": func(m *M, fr *frame, a []V) V { return V{U: 1} },
		"vIte":      func(m *M, fr *frame, a []V) V { return m.ite(a[0], a[1], a[2], 64) },
		"vIte8":     func(m *M, fr *frame, a []V) V { return m.ite(a[0], a[1], a[2], 8) },
		"vAnd": func(m *M, fr *frame, a []V) V {
			r := V{U: 1}
			for _, x := range slElems(a[0]) {
				r = m.and(r, x)
			}
			return r
		},
		"vOr": func(m *M, fr *frame, a []V) V {
			r := V{}
			for _, x := range slElems(a[0]) {
				r = m.or(r, x)
			}
			return r
		},
		"vNot": func(m *M, fr *frame, a []V) V { return m.not(a[0]) },
		// vHugeOK: allocations above the bound end the path without a finding
		"vHugeFails": func(m *M, fr *frame, a []V) V {
			l, _ := concreteStr(a[0])
			m.onHuge = func() {
				m.assert(V{}, l)
			}
			return V{}
		},
	}
}

var _ = fmt.Sprint
