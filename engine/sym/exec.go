package sym

import (
	"fmt"
	"go/token"
	"go/types"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

func (m *M) allocRegs(n int) []V {
	if len(m.regs)+n > cap(m.regs) {
		m.regs = make([]V, 0, max(1<<16, 2*n))
	}
	k := len(m.regs)
	m.regs = m.regs[:k+n]
	return m.regs[k : k+n : k+n]
}

// call runs a function with the given arguments and captured variables.
func (m *M) call(fn *Fn, args []V, free []V) V {
	if fn.native != nil {
		fr := &frame{m: m, fn: fn}
		return fn.native(m, fr, args)
	}
	if !fn.cmpl {
		if fn.F.Blocks == nil {
			m.unsupported("call of %s (no source)", fn.Name)
		}
		m.compile(fn)
	}
	if fn.inRepo && !m.funcsHit[fn] {
		m.funcsHit[fn] = true
	}
	m.depth++
	if m.depth > 2000 {
		panic(abort{kind: "budget", msg: "call depth at " + fn.Name})
	}
	base := m.regs
	fr := frame{m: m, fn: fn, r: m.allocRegs(fn.nreg)}
	for i, p := range fn.params {
		fr.r[p] = args[i]
	}
	for i, p := range fn.freeR {
		fr.r[p] = free[i]
	}
	m.stack = append(m.stack, fn)
	sy := false
	if fn.pureEv != nil && m.initN == 0 {
		for _, a := range args {
			if a.P != nil {
				sy = true
			}
		}
	}
	if sy {
		fr.ret = fn.pureEv(&fr)
	} else if fn.hasDef || fn.recov != nil {
		fr.runDeferred()
	} else {
		fr.run(fn.blocks[0])
	}
	m.stack = m.stack[:len(m.stack)-1]
	m.depth--
	clear(fr.r)
	if cap(base) == cap(m.regs) {
		m.regs = base
	} else if len(m.regs) >= fn.nreg {
		m.regs = m.regs[:len(m.regs)-fn.nreg]
	}
	return fr.ret
}

func (fr *frame) run(b *blk) {
	m := fr.m
	for {
		m.steps += int64(b.nops)
		if m.steps > m.maxSteps {
			panic(abort{kind: "budget", msg: fmt.Sprintf("more than %d instructions on one path at %s", m.maxSteps, m.where())})
		}
		if m.steps > m.nextLook {
			m.look()
		}
		for _, o := range b.ops {
			o(fr)
		}
		n := b.term(fr)
		if n < 0 {
			return
		}
		b = fr.fn.blocks[n]
	}
}

// look gives up on a path that outlives the check.
func (m *M) look() {
	m.nextLook = m.steps + 100_000
	if !m.cfg.Deadline.IsZero() && time.Now().After(m.cfg.Deadline.Add(20*time.Second)) {
		panic(abort{kind: "budget", msg: "a path was not finished within the time limit of the check"})
	}
}

// runDeferred runs a function with Go's defer/recover semantics.
func (fr *frame) runDeferred() {
	m := fr.m
	depth, sl := m.depth, len(m.stack)
	regs := m.regs
	func() {
		defer func() {
			if e := recover(); e != nil {
				gp, ok := e.(goPanic)
				if !ok {
					panic(e)
				}
				m.depth, m.stack, m.regs = depth, m.stack[:sl], regs
				fr.pan = &gp
			}
		}()
		fr.run(fr.fn.blocks[0])
	}()
	if fr.pan == nil {
		// RunDefers was executed by the function itself
		return
	}
	fr.doDefers()
	if fr.pan != nil {
		panic(*fr.pan)
	}
	// recovered: results come from the recover block
	if fr.fn.recov != nil {
		fr.run(fr.fn.recov)
	} else {
		fr.ret = fr.fn.resZ.Zero()
		if len(fr.fn.resZ.F) == 1 {
			fr.ret = fr.ret.P.(Tuple)[0]
		} else if len(fr.fn.resZ.F) == 0 {
			fr.ret = V{}
		}
	}
}

func (fr *frame) doDefers() {
	m := fr.m
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sl := m.depth, len(m.stack)
		regs := m.regs
		func() {
			defer func() {
				if e := recover(); e != nil {
					gp, ok := e.(goPanic)
					if !ok {
						panic(e)
					}
					m.depth, m.stack, m.regs = depth, m.stack[:sl], regs
					fr.pan = &gp
				}
			}()
			m.panicking = append(m.panicking, fr)
			defer func() { m.panicking = m.panicking[:len(m.panicking)-1] }()
			d.call()
		}()
	}
}

func (m *M) goRecover() V {
	// recover() called by a deferred function of the innermost panicking frame
	for i := len(m.panicking) - 1; i >= 0; i-- {
		fr := m.panicking[i]
		if fr.pan != nil {
			v := fr.pan.v
			fr.pan = nil
			return v
		}
		return V{}
	}
	return V{}
}

func (m *M) panicText(v V) string {
	if v.P == nil {
		return "nil"
	}
	i := v.P.(*Iface)
	switch i.T.K {
	case KString:
		s, ok := concreteStr(i.V)
		if ok {
			return s
		}
		return "text"
	case KInt:
		if i.V.P == nil {
			return fmt.Sprint(sx(i.V.U, i.T.W))
		}
	}
	return i.T.T.String()
}

func (c *comp) instr(in ssa.Instruction) op {
	m := c.m
	switch x := in.(type) {
	case *ssa.Alloc:
		dst := c.reg(x)
		t := m.ti(x.Type().(*types.Pointer).Elem())
		if t.agg() {
			return func(fr *frame) { p := new(V); *p = t.Zero(); fr.r[dst] = V{P: p} }
		}
		return func(fr *frame) { fr.r[dst] = V{P: new(V)} }
	case *ssa.BinOp:
		dst := c.reg(x)
		a, b := c.operand(x.X), c.operand(x.Y)
		t, t2 := m.ti(x.X.Type()), m.ti(x.Y.Type())
		o := x.Op
		if t.K == KInt {
			w := t.W
			mk := mask(w)
			switch o {
			case token.ADD:
				return func(fr *frame) {
					p, q := a.get(fr), b.get(fr)
					if p.P == nil && q.P == nil {
						fr.r[dst] = V{U: (p.U + q.U) & mk}
						return
					}
					fr.r[dst] = fr.m.intop(o, t, t2, p, q)
				}
			case token.EQL:
				return func(fr *frame) {
					p, q := a.get(fr), b.get(fr)
					if p.P == nil && q.P == nil {
						fr.r[dst] = bv(p.U == q.U)
						return
					}
					fr.r[dst] = fr.m.intop(o, t, t2, p, q)
				}
			case token.LSS:
				if t.Signed && w == 64 {
					return func(fr *frame) {
						p, q := a.get(fr), b.get(fr)
						if p.P == nil && q.P == nil {
							fr.r[dst] = bv(int64(p.U) < int64(q.U))
							return
						}
						fr.r[dst] = fr.m.intop(o, t, t2, p, q)
					}
				}
			}
			return func(fr *frame) { fr.r[dst] = fr.m.intop(o, t, t2, a.get(fr), b.get(fr)) }
		}
		return func(fr *frame) { fr.r[dst] = fr.m.binop(o, t, t2, a.get(fr), b.get(fr)) }
	case *ssa.UnOp:
		dst := c.reg(x)
		a := c.operand(x.X)
		t := m.ti(x.Type())
		switch x.Op {
		case token.MUL:
			if t.agg() {
				return func(fr *frame) {
					v := *fr.m.ptr(a.get(fr))
					if v.P == nil {
						v = t.Zero()
					}
					fr.r[dst] = copyV(v)
				}
			}
			return func(fr *frame) {
				v := a.get(fr)
				if p, ok := v.P.(*V); ok {
					fr.r[dst] = *p
					return
				}
				if sp, ok := v.P.(*SPtr); ok {
					fr.r[dst] = fr.m.selectElem(sp.E, sp.Idx, t)
					return
				}
				fr.r[dst] = *fr.m.ptr(v)
			}
		case token.NOT:
			return func(fr *frame) { fr.r[dst] = fr.m.not(a.get(fr)) }
		case token.SUB:
			return func(fr *frame) {
				v := a.get(fr)
				switch {
				case t.K == KFloat:
					fr.r[dst] = V{U: v.U ^ (1 << 63)}
				case v.P == nil:
					fr.r[dst] = V{U: -v.U & mask(t.W)}
				default:
					fr.r[dst] = tv(fr.m.c.Neg(v.P.(*smt.Term)))
				}
			}
		case token.XOR:
			return func(fr *frame) {
				v := a.get(fr)
				if v.P == nil {
					fr.r[dst] = V{U: ^v.U & mask(t.W)}
				} else {
					fr.r[dst] = tv(fr.m.c.BNot(v.P.(*smt.Term)))
				}
			}
		case token.ARROW:
			ok := x.CommaOk
			et := m.ti(x.X.Type()).Elem
			return func(fr *frame) {
				v, o := fr.m.chanRecv(a.get(fr), et)
				if ok {
					fr.r[dst] = V{P: Tuple{v, bv(o)}}
				} else {
					fr.r[dst] = v
				}
			}
		}
	case *ssa.Call:
		dst := c.reg(x)
		f := c.callOp(&x.Call)
		return func(fr *frame) { fr.r[dst] = f(fr)() }
	case *ssa.Defer:
		c.fn.hasDef = true
		f := c.callOp(&x.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{f(fr)}) }
	case *ssa.Go:
		f := c.callOp(&x.Call)
		return func(fr *frame) { fr.m.spawn(f(fr)) }
	case *ssa.RunDefers:
		c.fn.hasDef = true
		return func(fr *frame) {
			fr.doDefers()
			if fr.pan != nil {
				panic(*fr.pan)
			}
		}
	case *ssa.ChangeType:
		dst := c.reg(x)
		a := c.operand(x.X)
		return func(fr *frame) { fr.r[dst] = a.get(fr) }
	case *ssa.ChangeInterface:
		dst := c.reg(x)
		a := c.operand(x.X)
		return func(fr *frame) { fr.r[dst] = a.get(fr) }
	case *ssa.Convert:
		dst := c.reg(x)
		a := c.operand(x.X)
		from, to := m.ti(x.X.Type()), m.ti(x.Type())
		if from.K == KInt && to.K == KInt && !from.Signed && to.W >= from.W {
			return func(fr *frame) {
				v := a.get(fr)
				if v.P == nil {
					fr.r[dst] = v
					return
				}
				fr.r[dst] = fr.m.convert(from, to, v)
			}
		}
		return func(fr *frame) { fr.r[dst] = fr.m.convert(from, to, a.get(fr)) }
	case *ssa.MultiConvert:
		dst := c.reg(x)
		a := c.operand(x.X)
		from, to := m.ti(x.X.Type()), m.ti(x.Type())
		return func(fr *frame) { fr.r[dst] = fr.m.convert(from, to, a.get(fr)) }
	case *ssa.SliceToArrayPointer:
		dst := c.reg(x)
		a := c.operand(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			b, off, ln, _ := slParts(a.get(fr))
			if ln < n {
				fr.m.rtPanic("cannot convert slice to array pointer")
			}
			if b == nil {
				fr.r[dst] = V{}
				return
			}
			fr.r[dst] = V{P: &V{P: &Agg{b.E[off : off+n : off+n]}}}
		}
	case *ssa.Extract:
		dst := c.reg(x)
		a := c.operand(x.Tuple)
		i := x.Index
		return func(fr *frame) { fr.r[dst] = a.get(fr).P.(Tuple)[i] }
	case *ssa.Field:
		dst := c.reg(x)
		a := c.operand(x.X)
		i := x.Field
		return func(fr *frame) { fr.r[dst] = a.get(fr).P.(*Agg).E[i] }
	case *ssa.FieldAddr:
		dst := c.reg(x)
		a := c.operand(x.X)
		i := x.Field
		st := m.ti(x.X.Type().Underlying().(*types.Pointer).Elem())
		if st.K == KOpaque {
			return func(fr *frame) { fr.m.unsupported("field of %v", st.T) }
		}
		return func(fr *frame) {
			v := a.get(fr)
			p, ok := v.P.(*V)
			if !ok {
				p = fr.m.ptr(v)
			}
			fr.r[dst] = V{P: &p.P.(*Agg).E[i]}
		}
	case *ssa.IndexAddr:
		dst := c.reg(x)
		a, i := c.operand(x.X), c.operand(x.Index)
		it := m.ti(x.Index.Type())
		xt := m.ti(x.X.Type())
		isSlice := xt.K == KSlice
		return func(fr *frame) {
			v := a.get(fr)
			var e []V
			if isSlice {
				e = slElems(v)
			} else {
				e = fr.m.ptr(v).P.(*Agg).E
			}
			iv := i.get(fr)
			if iv.P == nil && iv.U < uint64(len(e)) {
				fr.r[dst] = V{P: &e[iv.U]}
				return
			}
			k, s := fr.m.boundsIdx(iv, it, len(e))
			if s == nil {
				fr.r[dst] = V{P: &e[k]}
				return
			}
			fr.r[dst] = V{P: &SPtr{E: e, Idx: s}}
		}
	case *ssa.Index:
		dst := c.reg(x)
		a, i := c.operand(x.X), c.operand(x.Index)
		it := m.ti(x.Index.Type())
		xt := m.ti(x.X.Type())
		u8 := m.ti(types.Typ[types.Uint8])
		return func(fr *frame) {
			v := a.get(fr)
			iv := i.get(fr)
			if xt.K == KString {
				if s, ok := v.P.(string); ok && iv.P == nil && iv.U < uint64(len(s)) {
					fr.r[dst] = V{U: uint64(s[iv.U])}
					return
				}
				n := strLen(v)
				k, s := fr.m.boundsIdx(iv, it, n)
				if s == nil {
					if ss, ok := v.P.(*SStr); ok {
						fr.r[dst] = ss.B[k]
						return
					}
					fr.r[dst] = strBytes(v)[k]
					return
				}
				fr.r[dst] = fr.m.selectElem(strBytes(v), s, u8)
				return
			}
			e := v.P.(*Agg).E
			k, s := fr.m.boundsIdx(iv, it, len(e))
			if s == nil {
				fr.r[dst] = e[k]
				return
			}
			fr.r[dst] = fr.m.selectElem(e, s, xt.Elem)
		}
	case *ssa.Store:
		a, v := c.operand(x.Addr), c.operand(x.Val)
		et := m.ti(x.Val.Type())
		if et.agg() {
			return func(fr *frame) {
				m := fr.m
				m.store(m.ptr(a.get(fr)), v.get(fr))
			}
		}
		return func(fr *frame) {
			av := a.get(fr)
			if p, ok := av.P.(*V); ok {
				fr.m.trail = append(fr.m.trail, trailEnt{p, *p})
				*p = v.get(fr)
				return
			}
			m := fr.m
			if sp, ok := av.P.(*SPtr); ok && (et.K == KInt || et.K == KBool) && len(sp.E) <= 64 {
				w := et.W
				nv := v.get(fr)
				for i := range sp.E {
					k := m.c.Eq(sp.Idx, m.c.Const(sp.Idx.W, uint64(i)))
					m.set(&sp.E[i], m.ite(tv(k), nv, sp.E[i], w))
				}
				return
			}
			m.set(m.ptr(av), v.get(fr))
		}
	case *ssa.MakeInterface:
		dst := c.reg(x)
		a := c.operand(x.X)
		t := m.ti(x.X.Type())
		return func(fr *frame) { fr.r[dst] = V{P: &Iface{t, a.get(fr)}} }
	case *ssa.MakeClosure:
		dst := c.reg(x)
		fn := m.fn(x.Fn.(*ssa.Function))
		var bs []opd
		for _, b := range x.Bindings {
			bs = append(bs, c.operand(b))
		}
		return func(fr *frame) {
			cl := &Closure{Fn: fn, Free: make([]V, len(bs))}
			for i := range bs {
				cl.Free[i] = bs[i].get(fr)
			}
			fr.r[dst] = V{P: cl}
		}
	case *ssa.MakeSlice:
		dst := c.reg(x)
		l, cp := c.operand(x.Len), c.operand(x.Cap)
		lt, ct := m.ti(x.Len.Type()), m.ti(x.Cap.Type())
		et := m.ti(x.Type()).Elem
		return func(fr *frame) {
			m := fr.m
			lv, cv := l.get(fr), cp.get(fr)
			n := m.sizeArg(lv, lt, "makeslice: len out of range")
			k := n
			if cv != lv {
				k = m.sizeArg(cv, ct, "makeslice: cap out of range")
			}
			if n > k {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.r[dst] = m.makeSlice(et, n, k)
		}
	case *ssa.MakeMap:
		dst := c.reg(x)
		t := m.ti(x.Type())
		return func(fr *frame) { fr.r[dst] = V{P: fr.m.newMap(t)} }
	case *ssa.MakeChan:
		dst := c.reg(x)
		sz := c.operand(x.Size)
		return func(fr *frame) { fr.r[dst] = V{P: &Chan{cap: fr.m.concretize(sz.get(fr), 64)}} }
	case *ssa.MapUpdate:
		mp, k, v := c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
		return func(fr *frame) { fr.m.mapSet(mp.get(fr), k.get(fr), v.get(fr)) }
	case *ssa.Lookup:
		dst := c.reg(x)
		a, k := c.operand(x.X), c.operand(x.Index)
		t := m.ti(x.X.Type())
		ok := x.CommaOk
		if t.K == KString {
			it := m.ti(x.Index.Type())
			u8 := m.ti(types.Typ[types.Uint8])
			return func(fr *frame) {
				v := a.get(fr)
				i, s := fr.m.boundsIdx(k.get(fr), it, strLen(v))
				if s == nil {
					fr.r[dst] = strBytes(v)[i]
					return
				}
				fr.r[dst] = fr.m.selectElem(strBytes(v), s, u8)
			}
		}
		return func(fr *frame) {
			v, found := fr.m.mapGet(a.get(fr), t, k.get(fr))
			if ok {
				fr.r[dst] = V{P: Tuple{v, bv(found)}}
			} else {
				fr.r[dst] = v
			}
		}
	case *ssa.Range:
		dst := c.reg(x)
		a := c.operand(x.X)
		t := m.ti(x.X.Type())
		return func(fr *frame) {
			v := a.get(fr)
			if t.K == KString {
				fr.r[dst] = V{P: &strIter{b: strBytes(v)}}
				return
			}
			fr.r[dst] = V{P: fr.m.mapIter(v)}
		}
	case *ssa.Next:
		dst := c.reg(x)
		a := c.operand(x.Iter)
		tt := m.ti(x.Type())
		return func(fr *frame) {
			switch it := a.get(fr).P.(type) {
			case *strIter:
				if it.i >= len(it.b) {
					fr.r[dst] = V{P: Tuple{V{}, V{}, V{}}}
					return
				}
				r, n := fr.m.nextRune(it.b, it.i)
				fr.r[dst] = V{P: Tuple{V{U: 1}, iv(it.i), r}}
				it.i += n
			case *mapIt:
				k, v, ok := it.next(fr.m)
				if !ok {
					k, v = tt.F[1].Zero(), tt.F[2].Zero()
				}
				fr.r[dst] = V{P: Tuple{bv(ok), k, v}}
			}
		}
	case *ssa.Slice:
		dst := c.reg(x)
		a := c.operand(x.X)
		t := m.ti(x.X.Type())
		var lo, hi, mx opd
		var lot, hit, mxt *TI
		if x.Low != nil {
			lo = c.operand(x.Low)
			lot = m.ti(x.Low.Type())
		}
		if x.High != nil {
			hi = c.operand(x.High)
			hit = m.ti(x.High.Type())
		}
		if x.Max != nil {
			mx = c.operand(x.Max)
			mxt = m.ti(x.Max.Type())
		}
		return func(fr *frame) {
			var l, h, k V
			if lot != nil {
				l = lo.get(fr)
			}
			if hit != nil {
				h = hi.get(fr)
			}
			if mxt != nil {
				k = mx.get(fr)
			}
			fr.r[dst] = fr.m.sliceOp(a.get(fr), t, l, lot, h, hit, k, mxt)
		}
	case *ssa.TypeAssert:
		dst := c.reg(x)
		a := c.operand(x.X)
		t := m.ti(x.AssertedType)
		ok := x.CommaOk
		return func(fr *frame) { fr.r[dst] = fr.m.typeAssert(a.get(fr), t, ok) }
	case *ssa.Send:
		a, v := c.operand(x.Chan), c.operand(x.X)
		return func(fr *frame) { fr.m.chanSend(a.get(fr), v.get(fr)) }
	case *ssa.Select:
		dst := c.reg(x)
		type st struct {
			ch   opd
			send opd
			dir  types.ChanDir
			et   *TI
		}
		var sts []st
		for _, s := range x.States {
			q := st{ch: c.operand(s.Chan), dir: s.Dir, et: m.ti(s.Chan.Type()).Elem}
			if s.Send != nil {
				q.send = c.operand(s.Send)
			}
			sts = append(sts, q)
		}
		blocking := x.Blocking
		return func(fr *frame) {
			for {
				for i, s := range sts {
					chv := s.ch.get(fr)
					if chv.P == nil {
						continue
					}
					ch := chv.P.(*Chan)
					res := func(v V, rok bool) {
						t := Tuple{iv(i), bv(rok)}
						for j, q := range sts {
							if q.dir == types.RecvOnly {
								if j == i {
									t = append(t, v)
								} else {
									t = append(t, q.et.Zero())
								}
							}
						}
						fr.r[dst] = V{P: t}
					}
					if s.dir == types.SendOnly {
						if ch.closed || len(ch.buf) < ch.cap {
							fr.m.chanSend(chv, s.send.get(fr))
							res(V{}, false)
							return
						}
					} else if len(ch.buf) > 0 || ch.closed {
						v, o := fr.m.chanRecv(chv, s.et)
						res(v, o)
						return
					}
				}
				if !blocking {
					t := Tuple{V{U: ^uint64(0)}, V{}}
					for _, q := range sts {
						if q.dir == types.RecvOnly {
							t = append(t, q.et.Zero())
						}
					}
					fr.r[dst] = V{P: t}
					return
				}
				fr.m.block("select")
			}
		}
	}
	s := fmt.Sprintf("instruction %T", in)
	return func(fr *frame) { fr.m.unsupported("%s", s) }
}

type strIter struct {
	b []V
	i int
}

func (m *M) sizeArg(v V, t *TI, msg string) int {
	if v.P == nil {
		n := sx(v.U, t.W)
		if !t.Signed {
			n = int64(v.U)
		}
		if n < 0 || n > 1<<40 {
			m.rtPanic(msg)
		}
		if n > slMask {
			panic(abort{kind: "budget", msg: fmt.Sprintf("allocation of %d elements at %s", n, m.where())})
		}
		return int(n)
	}
	x := v.P.(*smt.Term)
	if x.W < 64 {
		if t.Signed {
			x = m.c.SExt(x, 64)
		} else {
			x = m.c.ZExt(x, 64)
		}
	}
	if !m.branch(tv(m.c.Ult(x, m.c.Const(64, 1<<47)))) {
		m.rtPanic(msg)
	}
	lim := uint64(m.cfg.MaxAlloc)
	if !m.branch(tv(m.c.Ule(x, m.c.Const(64, lim)))) {
		m.hugeAlloc()
	}
	return m.concretize(V{P: x}, 64)
}

// hugeAlloc ends a path on which a size larger than the bound is allocated.
func (m *M) hugeAlloc() {
	if m.onHuge != nil {
		m.onHuge()
	}
	panic(abort{kind: "budget", msg: "allocation larger than the bound at " + m.where()})
}

func (m *M) makeSlice(et *TI, n, k int) V {
	e := make([]V, k)
	if et.agg() {
		for i := range e {
			e[i] = et.Zero()
		}
	}
	return mkSlice(&Back{E: e}, 0, n, k)
}

// bound turns a slice bound into an int: 0 <= v <= limit, or panics.
func (m *M) bound(v V, t *TI, limit int) int {
	if v.P == nil {
		n := sx(v.U, t.W)
		if !t.Signed {
			n = int64(v.U)
		}
		if n < 0 || n > int64(limit) {
			m.rtPanic("slice bounds out of range")
		}
		return int(n)
	}
	x := v.P.(*smt.Term)
	if x.W < 64 {
		if t.Signed {
			x = m.c.SExt(x, 64)
		} else {
			x = m.c.ZExt(x, 64)
		}
	}
	if !m.branch(tv(m.c.Ule(x, m.c.Const(64, uint64(limit))))) {
		m.rtPanic("slice bounds out of range")
	}
	return m.concretize(V{P: x}, 64)
}

func (m *M) sliceOp(a V, t *TI, lo V, lot *TI, hi V, hit *TI, mx V, mxt *TI) V {
	if t.K == KString {
		n := strLen(a)
		h := n
		if hit != nil {
			h = m.bound(hi, hit, n)
		}
		l := 0
		if lot != nil {
			l = m.bound(lo, lot, h)
		}
		switch s := a.P.(type) {
		case nil:
			return V{}
		case string:
			return str(s[l:h])
		case *SStr:
			return mkStr(s.B[l:h:h])
		}
		return mkStr(append([]V{}, strBytes(a)[l:h]...))
	}
	var b *Back
	var off, n, cp int
	if t.K == KPtr {
		p := m.ptr(a)
		ag := p.P.(*Agg)
		b = (*Back)(ag)
		n, cp = len(ag.E), len(ag.E)
	} else {
		b, off, n, cp = slParts(a)
	}
	k := cp
	if mxt != nil {
		k = m.bound(mx, mxt, cp)
	}
	h := n
	if hit != nil {
		h = m.bound(hi, hit, k)
	} else if h > k {
		m.rtPanic("slice bounds out of range")
	}
	l := 0
	if lot != nil {
		l = m.bound(lo, lot, h)
	}
	if b == nil {
		return V{}
	}
	return mkSlice(b, off+l, h-l, k-l)
}

func (m *M) implements(t *TI, it *TI) bool {
	k := methKey{t, "\x00" + fmt.Sprint(it.id)}
	if r, ok := m.implC[k]; ok {
		return r
	}
	r := types.Implements(t.T, it.U.(*types.Interface))
	m.implC[k] = r
	return r
}

func (m *M) typeAssert(v V, t *TI, ok bool) V {
	var good bool
	var i *Iface
	if v.P != nil {
		i = v.P.(*Iface)
		if t.K == KIface {
			good = m.implements(i.T, t)
		} else {
			good = i.T == t
		}
	}
	if good {
		r := i.V
		if t.K == KIface {
			r = v
		}
		if ok {
			return V{P: Tuple{r, V{U: 1}}}
		}
		return r
	}
	if ok {
		return V{P: Tuple{t.Zero(), V{}}}
	}
	from := "nil"
	if i != nil {
		from = i.T.T.String()
	}
	m.rtPanic("interface conversion: interface is " + from + ", not " + t.T.String())
	return V{}
}

// method finds the implementation of an interface method for a dynamic type.
func (m *M) method(t *TI, fnc *types.Func) *Fn {
	key := methKey{t, fnc.Id()}
	if f, ok := m.methC[key]; ok {
		return f
	}
	sel := m.prog.MethodSets.MethodSet(t.T).Lookup(fnc.Pkg(), fnc.Name())
	if sel == nil {
		panic(fmt.Sprintf("no method %s on %v", fnc.Name(), t.T))
	}
	f := m.fn(m.prog.MethodValue(sel))
	m.methC[key] = f
	return f
}

// methodByName finds a method of a type by name, or nil.
func (m *M) methodByName(t *TI, name string) *Fn {
	ms := m.prog.MethodSets.MethodSet(t.T)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			key := methKey{t, s.Obj().(*types.Func).Id()}
			if f, ok := m.methC[key]; ok {
				return f
			}
			f := m.fn(m.prog.MethodValue(s))
			m.methC[key] = f
			return f
		}
	}
	return nil
}

// callOp evaluates callee and arguments and returns the thunk that makes the call.
func (c *comp) callOp(cc *ssa.CallCommon) func(fr *frame) func() V {
	m := c.m
	var args []opd
	for _, a := range cc.Args {
		args = append(args, c.operand(a))
	}
	getArgs := func(fr *frame, extra int) []V {
		vs := make([]V, len(args)+extra)
		for i := range args {
			vs[i+extra] = args[i].get(fr)
		}
		return vs
	}
	if cc.IsInvoke() {
		recv := c.operand(cc.Value)
		meth := cc.Method
		return func(fr *frame) func() V {
			v := recv.get(fr)
			if v.P == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := v.P.(*Iface)
			vs := getArgs(fr, 1)
			vs[0] = i.V
			if i.T == fr.m.rtypeTI {
				return func() V { return fr.m.rtypeCall(meth.Name(), vs) }
			}
			fn := fr.m.method(i.T, meth)
			return func() V { return fr.m.call(fn, vs, nil) }
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		name := f.Name()
		var ts []*TI
		for _, a := range cc.Args {
			ts = append(ts, m.ti(a.Type()))
		}
		var rt *TI
		if cc.Signature().Results().Len() > 0 {
			rt = m.ti(cc.Signature().Results().At(0).Type())
		}
		return func(fr *frame) func() V {
			vs := getArgs(fr, 0)
			return func() V { return fr.m.builtin(fr, name, ts, vs, rt) }
		}
	case *ssa.Function:
		fn := m.fn(f)
		return func(fr *frame) func() V {
			vs := getArgs(fr, 0)
			return func() V { return fr.m.call(fn, vs, nil) }
		}
	}
	fv := c.operand(cc.Value)
	return func(fr *frame) func() V {
		v := fv.get(fr)
		vs := getArgs(fr, 0)
		return func() V { return fr.m.callV(v, vs) }
	}
}

func (m *M) callV(f V, args []V) V {
	if f.P == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	cl := f.P.(*Closure)
	if cl.Nat != nil {
		return cl.Nat(m, args)
	}
	return m.call(cl.Fn, args, cl.Free)
}

func (m *M) builtin(fr *frame, name string, ts []*TI, a []V, rt *TI) V {
	switch name {
	case "len":
		switch ts[0].K {
		case KString:
			return iv(strLen(a[0]))
		case KSlice:
			return iv(slLen(a[0]))
		case KMap:
			return iv(m.mapLen(a[0]))
		case KChan:
			if a[0].P == nil {
				return V{}
			}
			return iv(len(a[0].P.(*Chan).buf))
		case KArray:
			return iv(ts[0].N)
		case KPtr:
			return iv(ts[0].Elem.N)
		}
	case "cap":
		switch ts[0].K {
		case KSlice:
			_, _, _, c := slParts(a[0])
			return iv(c)
		case KChan:
			return iv(a[0].P.(*Chan).cap)
		case KArray:
			return iv(ts[0].N)
		case KPtr:
			return iv(ts[0].Elem.N)
		}
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		if ts[1].K == KString {
			return m.appendElems(a[0], strBytes(a[1]), ts[0].Elem)
		}
		return m.appendElems(a[0], slElems(a[1]), ts[0].Elem)
	case "copy":
		var src []V
		if ts[1].K == KString {
			src = strBytes(a[1])
		} else {
			src = slElems(a[1])
		}
		dst := slElems(a[0])
		n := min(len(src), len(dst))
		m.copyElems(dst[:n], src[:n])
		return iv(n)
	case "delete":
		m.mapDelete(a[0], a[1])
		return V{}
	case "panic":
		panic(goPanic{v: a[0], msg: m.panicText(a[0])})
	case "recover":
		return m.goRecover()
	case "print", "println":
		return V{}
	case "close":
		ch := a[0].P.(*Chan)
		if ch.closed {
			m.rtPanic("close of closed channel")
		}
		ch.closed = true
		m.undo = append(m.undo, func() { ch.closed = false })
		return V{}
	case "min", "max":
		r := a[0]
		for i := 1; i < len(a); i++ {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			cnd := m.binop(op, ts[0], ts[0], a[i], r)
			if ts[0].K == KInt {
				r = m.ite(cnd, a[i], r, ts[0].W)
			} else if m.branch(cnd) {
				r = a[i]
			}
		}
		return r
	case "clear":
		if ts[0].K == KMap {
			m.mapClear(a[0])
		} else {
			for i := range slElems(a[0]) {
				m.store(&slElems(a[0])[i], ts[0].Elem.Zero())
			}
		}
		return V{}
	case "ssa:wrapnilchk":
		if a[0].P == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return a[0]
	case "SliceData":
		b, off, _, _ := slParts(a[0])
		if b == nil {
			return V{}
		}
		return V{P: &SData{B: b, Off: off}}
	case "StringData":
		return V{P: &SData{S: a[0]}}
	case "String":
		n := m.concretize(a[1], 64)
		if n == 0 {
			return V{}
		}
		switch d := a[0].P.(type) {
		case *SData:
			e := make([]V, n)
			if d.B == nil {
				copy(e, strBytes(d.S))
			} else {
				copy(e, d.B.E[d.Off:d.Off+n])
			}
			return mkStr(e)
		case *V:
			return mkStr(append([]V{}, unsafe.Slice(d, n)...))
		}
	case "Slice":
		n := m.concretize(a[1], 64)
		if d, ok := a[0].P.(*SData); ok {
			if d.B != nil {
				return mkSlice(d.B, d.Off, n, n)
			}
			return newSlice(append([]V{}, strBytes(d.S)[:n]...))
		}
		if d, ok := a[0].P.(*V); ok {
			return mkSlice(&Back{E: unsafe.Slice(d, n)}, 0, n, n)
		}
		if n == 0 {
			return V{}
		}
	}
	m.unsupported("builtin %s of %v", name, ts)
	return V{}
}

func (m *M) copyElems(dst, src []V) {
	if len(dst) == 0 {
		return
	}
	// overlapping copies follow Go's memmove semantics
	if _, ok := src[0].P.(*Agg); ok {
		tmp := make([]V, len(src))
		for i := range src {
			tmp[i] = copyV(src[i])
		}
		for i := range dst {
			m.store(&dst[i], tmp[i])
		}
		return
	}
	for i := range dst {
		m.trail = append(m.trail, trailEnt{&dst[i], dst[i]})
	}
	copy(dst, src)
}

func (m *M) appendElems(s V, add []V, et *TI) V {
	b, off, n, cp := slParts(s)
	if len(add) == 0 {
		return s
	}
	if n+len(add) <= cp {
		m.copyElems(b.E[off+n:off+n+len(add)], add)
		return mkSlice(b, off, n+len(add), cp)
	}
	// growth follows the runtime closely enough for aliasing: a new array with room
	nc := growCap(cp, n+len(add), et)
	e := make([]V, nc)
	if et.agg() {
		for i := 0; i < n; i++ {
			e[i] = copyV(b.E[off+i])
		}
		for i := range add {
			e[n+i] = copyV(add[i])
		}
		for i := n + len(add); i < nc; i++ {
			e[i] = et.Zero()
		}
	} else {
		if n > 0 {
			copy(e, b.E[off:off+n])
		}
		copy(e[n:], add)
	}
	return mkSlice(&Back{E: e}, 0, n+len(add), nc)
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func (t *TI) size() int {
	switch t.K {
	case KBool:
		return 1
	case KInt, KFloat:
		return t.W / 8
	case KString, KIface:
		return 16
	case KSlice:
		return 24
	case KStruct, KArray:
		return int(types.SizesFor("gc", "amd64").Sizeof(t.T))
	}
	return 8
}

func growCap(old, need int, et *TI) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	sz := et.size()
	if sz == 0 {
		return need
	}
	by := nc * sz
	for _, s := range sizeClasses {
		if s >= by {
			return s / sz
		}
	}
	p := 8192
	return (by + p - 1) / p * p / sz
}
