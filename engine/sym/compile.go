package sym

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Fn is a compiled function.
type Fn struct {
	F      *ssa.Function
	Name   string // full name for intrinsics
	nreg   int
	blocks []*blk
	params []int
	nfree  int
	freeR  []int
	native func(m *M, fr *frame, args []V) V
	hasDef bool
	recov  *blk
	sig    *types.Signature
	pkg    string
	inRepo bool
	resZ   *TI
	isBare bool
	cmpl   bool
	pureEv func(fr *frame) V
}

func (f *Fn) short() string {
	n := f.Name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		// keep a receiver parenthesis
		pre := ""
		if strings.HasPrefix(n, "(*") {
			pre = "(*"
		} else if strings.HasPrefix(n, "(") {
			pre = "("
		}
		return pre + n[i+1:]
	}
	return n
}

type op func(fr *frame)

type blk struct {
	idx   int
	ops   []op
	term  func(fr *frame) int // next block index, -1 to return
	phis  [][]phiEnt          // per predecessor index
	b     *ssa.BasicBlock
	merge *region
	pure  bool
	nops  int
}

type phiEnt struct {
	dst int
	src opd
	t   *TI
}

type frame struct {
	m      *M
	fn     *Fn
	r      []V
	defers []deferred
	ret    V
	pan    *goPanic
	recvd  bool
	panics bool
	up     *frame
	cur    *blk
}

type deferred struct {
	call func() V
}

type opd struct {
	i int
	c V
}

func (o *opd) get(fr *frame) V {
	if o.i >= 0 {
		return fr.r[o.i]
	}
	return o.c
}

type comp struct {
	m    *M
	fn   *Fn
	regs map[ssa.Value]int
}

func (m *M) fn(f *ssa.Function) *Fn {
	if x := m.fns[f]; x != nil {
		return x
	}
	if len(m.cfg.Stubs) > 0 {
		if g := m.cfg.Stubs[f.String()]; g != nil {
			x := m.fn(g)
			m.fns[f] = x
			return x
		}
	}
	x := &Fn{F: f, Name: f.String(), sig: f.Signature}
	if o := f.Origin(); o != nil {
		x.Name = o.String()
	}
	if f.Pkg != nil {
		x.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		x.pkg = o.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		x.pkg = f.Object().Pkg().Path()
	}
	x.inRepo = strings.HasPrefix(x.pkg, m.cfg.Module)
	m.fns[f] = x
	x.native = m.lookupNative(x)
	return x
}

func (c *comp) operand(v ssa.Value) opd {
	switch v := v.(type) {
	case *ssa.Const:
		return opd{i: -1, c: c.m.constV(v)}
	case *ssa.Global:
		return opd{i: -1, c: V{P: c.m.global(v)}}
	case *ssa.Function:
		return opd{i: -1, c: V{P: &Closure{Fn: c.m.fn(v)}}}
	case *ssa.Builtin:
		return opd{i: -1, c: V{}}
	}
	i, ok := c.regs[v]
	if !ok {
		i = c.fn.nreg
		c.fn.nreg++
		c.regs[v] = i
	}
	return opd{i: i}
}

func (c *comp) reg(v ssa.Value) int { o := c.operand(v); return o.i }

func (m *M) constV(k *ssa.Const) V {
	t := m.ti(k.Type())
	if k.Value == nil {
		if t.agg() {
			return t.Zero()
		}
		return V{}
	}
	switch t.K {
	case KBool:
		return bv(constant.BoolVal(k.Value))
	case KInt:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{U: uint64(i) & mask(t.W)}
		}
		u, _ := constant.Uint64Val(v)
		return V{U: u & mask(t.W)}
	case KFloat:
		f, _ := constant.Float64Val(k.Value)
		if t.W == 32 {
			f = float64(float32(f))
		}
		return V{U: math.Float64bits(f)}
	case KString:
		if k.Value.Kind() == constant.String {
			return str(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return str(string(rune(i)))
	case KComplex:
		return V{P: "complex"}
	}
	panic(fmt.Sprintf("const of %v", k.Type()))
}

func (m *M) global(g *ssa.Global) *V {
	if p := m.glob[g]; p != nil {
		return p
	}
	m.initPkg(g.Pkg)
	if p := m.glob[g]; p != nil {
		return p
	}
	p := m.newGlobal(g)
	return p
}

func (m *M) newGlobal(g *ssa.Global) *V {
	if p := m.glob[g]; p != nil {
		return p
	}
	p := new(V)
	*p = m.ti(g.Type().(*types.Pointer).Elem()).Zero()
	m.glob[g] = p
	return p
}

var initDeny = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "sync": true, "time": true, "net": true, "os/exec": true,
	"math/rand": true, "log": true, "testing": true, "flag": true, "io/fs": false, "os/signal": true, "crypto/rand": true, "math/big": false, "fmt": true,
	"internal/godebug": true, "context": true, "net/http": true, "crypto/tls": true, "math/rand/v2": true, "internal/poll": true, "path/filepath": false, "encoding/gob": true, "html/template": true, "text/template": true, "expvar": true,
	"github.com/sirupsen/logrus": true, "github.com/lestrrat-go/file-rotatelogs": true, "crypto": true, "regexp": false, "golang.org/x/sys/unix": true, "golang.org/x/sys/cpu": true, "internal/cpu": true, "internal/bytealg": true}

// initPkg runs the package initialiser once, outside any path.
func (m *M) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	path := p.Pkg.Path()
	if path == "github.com/sirupsen/logrus" && m.cfg.RealLog {
		// its variables are needed
	} else if initDeny[path] || strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto/internal") {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	save, st, sd, sched := m.trail, m.steps, m.depth, m.sched
	sms := m.maxSteps
	m.sched = nil
	m.trail, m.steps, m.depth = nil, 0, 0
	m.maxSteps = 400e6
	sundo, sep := m.undo, m.epoch
	m.undo = nil
	m.epoch = 0
	sstack := m.stack
	m.stack = nil
	m.initN++
	defer func() {
		m.initN--
		m.trail, m.steps, m.depth, m.undo, m.epoch, m.stack, m.sched, m.maxSteps = save, st, sd, sundo, sep, sstack, sched, sms
		if e := recover(); e != nil {
			switch x := e.(type) {
			case abort:
				if m.initN > 0 {
					m.res.note(fmt.Sprintf("init of %s stopped: %s", path, x.msg))
					return
				}
				m.res.note(fmt.Sprintf("init of %s stopped: %s", path, x.msg))
			case goPanic:
				m.res.note(fmt.Sprintf("init of %s panicked: %s", path, x.msg))
			default:
				panic(e)
			}
		}
	}()
	m.callRaw(m.fn(f), nil)
}

var _ = token.ADD
var _ = big.NewInt

// pureInstr: may be executed speculatively.
func (c *comp) pureInstr(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.DebugRef, *ssa.Jump, *ssa.If, *ssa.Phi:
		return true
	case *ssa.BinOp:
		t := c.m.ti(x.X.Type())
		if t.K != KInt && t.K != KBool {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM:
			k, ok := x.Y.(*ssa.Const)
			return ok && k.Value != nil && constant.Sign(k.Value) != 0
		case token.SHL, token.SHR:
			if _, ok := x.Y.(*ssa.Const); ok {
				return true
			}
			return !c.m.ti(x.Y.Type()).Signed
		}
		return true
	case *ssa.UnOp:
		return x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR
	case *ssa.Convert:
		return c.m.ti(x.X.Type()).K == KInt && c.m.ti(x.Type()).K == KInt
	case *ssa.ChangeType, *ssa.Extract:
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && f != c.fn.F && c.m.pureFn(f, 0)
	}
	return false
}

// pureFn tells whether calls of f can always be evaluated without forking:
// no loops, no memory, only integers and booleans.
func (m *M) pureFn(f *ssa.Function, depth int) bool {
	if r, ok := m.pureMemo[f]; ok {
		return r
	}
	m.pureMemo[f] = false // recursion
	r := m.pureFn1(f, depth)
	m.pureMemo[f] = r
	return r
}

func (m *M) pureFn1(f *ssa.Function, depth int) bool {
	if depth > 8 || len(f.Blocks) == 0 || len(f.Blocks) > 40 || len(f.FreeVars) > 0 || f.Recover != nil {
		return false
	}
	if m.fn(f).native != nil {
		return false
	}
	scalar := func(t types.Type) bool {
		k := m.ti(t)
		return (k.K == KInt || k.K == KBool)
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	for i := 0; i < rs.Len(); i++ {
		if !scalar(rs.At(i).Type()) {
			return false
		}
	}
	for _, p := range f.Params {
		if !scalar(p.Type()) {
			return false
		}
	}
	c := &comp{m: m, fn: m.fn(f), regs: map[ssa.Value]int{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
			case *ssa.Phi:
				if !scalar(x.Type()) {
					return false
				}
			default:
				if !c.pureInstr(in) {
					return false
				}
			}
		}
	}
	return true
}

// pureEval makes the merged evaluation of a pure function.
func (c *comp) pureEval() func(fr *frame) V {
	f := c.fn.F
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var post func(b *ssa.BasicBlock)
	post = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			post(s)
		}
		order = append(order, b)
	}
	post(f.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	conds := map[*ssa.BasicBlock]opd{}
	rets := map[*ssa.BasicBlock][]opd{}
	type inEdge struct {
		from   *ssa.BasicBlock
		taken  int
		predIx int
	}
	into := map[*ssa.BasicBlock][]inEdge{}
	for _, b := range order {
		switch x := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.If:
			conds[b] = c.operand(x.Cond)
		case *ssa.Return:
			rs := []opd{}
			for _, r := range x.Results {
				rs = append(rs, c.operand(r))
			}
			rets[b] = rs
		}
		for k, s := range b.Succs {
			into[s] = append(into[s], inEdge{b, k, predIndex(s, b, b.Succs, k)})
		}
	}
	fnb := c.fn.blocks
	resT := c.m.ti(f.Signature.Results()).F
	return func(fr *frame) V {
		m := fr.m
		bc := map[*ssa.BasicBlock]*smt.Term{order[0]: m.c.True}
		acc := make(Tuple, len(resT))
		first := true
		for _, b := range order {
			if b != order[0] {
				es := into[b]
				var cs []*smt.Term
				for _, e := range es {
					t := bc[e.from]
					if o, ok := conds[e.from]; ok && t != m.c.False {
						ct := m.term(o.get(fr), 0)
						if e.taken == 1 {
							ct = m.c.Not(ct)
						}
						t = m.c.And(t, ct)
					}
					cs = append(cs, t)
				}
				bc[b] = m.c.Or(cs...)
				if bc[b] == m.c.False {
					continue
				}
				bk := fnb[b.Index]
				if n := len(bk.phis[es[0].predIx]); n > 0 {
					vals := make([]V, n)
					for i := 0; i < n; i++ {
						st := true
						for k := len(es) - 1; k >= 0; k-- {
							if cs[k] == m.c.False {
								continue
							}
							v := bk.phis[es[k].predIx][i].src.get(fr)
							if st {
								vals[i], st = v, false
								continue
							}
							t := bk.phis[es[k].predIx][i].t
							w := t.W
							if t.K == KBool {
								w = 0
							}
							vals[i] = m.ite(tv(cs[k]), v, vals[i], w)
						}
					}
					for i := 0; i < n; i++ {
						fr.r[bk.phis[es[0].predIx][i].dst] = vals[i]
					}
				}
			}
			for _, o := range fnb[b.Index].ops {
				o(fr)
			}
			m.steps += int64(len(fnb[b.Index].ops))
			if rs, ok := rets[b]; ok {
				for i := range rs {
					v := rs[i].get(fr)
					if first {
						acc[i] = v
						continue
					}
					w := resT[i].W
					if resT[i].K == KBool {
						w = 0
					}
					acc[i] = m.ite(tv(bc[b]), v, acc[i], w)
				}
				first = false
			}
		}
		if len(acc) == 1 {
			return acc[0]
		}
		return V{P: acc}
	}
}

func (c *comp) pureBlock(b *ssa.BasicBlock) bool {
	for _, i := range b.Instrs {
		if !c.pureInstr(i) {
			return false
		}
	}
	return len(b.Instrs) <= 24
}

// region is a set of pure blocks after a conditional that can be evaluated
// without forking; at most two distinct exits remain.
type region struct {
	blocks []*ssa.BasicBlock // in topological order, excluding the head
	exits  []*ssa.BasicBlock
	edges  []redge
}

type redge struct {
	from   *ssa.BasicBlock
	to     *ssa.BasicBlock
	predIx int
	taken  int // successor index
}

// findRegion returns the largest region after head with at most maxExits exits.
func (c *comp) findRegion(head *ssa.BasicBlock, maxExits, maxBlocks int) *region {
	in := map[*ssa.BasicBlock]bool{head: true}
	var blocks []*ssa.BasicBlock
	var best *region
	eval := func() {
		var edges []redge
		var exits []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		for _, b := range append([]*ssa.BasicBlock{head}, blocks...) {
			for k, s := range b.Succs {
				if in[s] && s != head {
					continue
				}
				pi := predIndex(s, b, b.Succs, k)
				edges = append(edges, redge{b, s, pi, k})
				if !seen[s] {
					seen[s] = true
					exits = append(exits, s)
				}
			}
		}
		if len(exits) <= maxExits && (len(blocks) > 0 || len(exits) == 1) {
			best = &region{append([]*ssa.BasicBlock{}, blocks...), exits, edges}
		}
	}
	eval()
	for len(blocks) < maxBlocks {
		var cand *ssa.BasicBlock
		for _, b := range append([]*ssa.BasicBlock{head}, blocks...) {
			for _, s := range b.Succs {
				if in[s] || s == head {
					continue
				}
				ok := true
				for _, p := range s.Preds {
					if !in[p] {
						ok = false
					}
				}
				if ok && len(s.Succs) > 0 && c.pureBlock(s) {
					cand = s
					break
				}
			}
			if cand != nil {
				break
			}
		}
		if cand == nil {
			break
		}
		in[cand] = true
		blocks = append(blocks, cand)
		eval()
	}
	return best
}

func predIndex(s, b *ssa.BasicBlock, succs []*ssa.BasicBlock, k int) int {
	// the same block may be a predecessor twice (both If targets equal)
	want := 0
	for j := 0; j < k; j++ {
		if succs[j] == s {
			want++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if want == 0 {
				return i
			}
			want--
		}
	}
	return -1
}

func (m *M) compile(fn *Fn) {
	f := fn.F
	fn.cmpl = true
	c := &comp{m: m, fn: fn, regs: map[ssa.Value]int{}}
	for _, p := range f.Params {
		fn.params = append(fn.params, c.reg(p))
	}
	for _, p := range f.FreeVars {
		fn.freeR = append(fn.freeR, c.reg(p))
	}
	fn.resZ = m.ti(f.Signature.Results())
	for i, b := range f.Blocks {
		fn.blocks = append(fn.blocks, &blk{idx: i, b: b})
	}
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	if f.Recover != nil {
		fn.recov = fn.blocks[f.Recover.Index]
	}
	if m.pureFn(f, 0) {
		fn.pureEv = c.pureEval()
	}
}

func (c *comp) block(bk *blk, b *ssa.BasicBlock) {
	m := c.m
	bk.phis = make([][]phiEnt, len(b.Preds))
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst := c.reg(ph)
		t := m.ti(ph.Type())
		for k, e := range ph.Edges {
			bk.phis[k] = append(bk.phis[k], phiEnt{dst, c.operand(e), t})
		}
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.If:
			cond := c.operand(x.Cond)
			t, f := b.Succs[0], b.Succs[1]
			te := c.edge(b, t, 0)
			fe := c.edge(b, f, 1)
			var regEval, regEval2 func(fr *frame, cond V) (int, bool)
			rg := c.findRegion(b, 5, 16)
			if rg != nil {
				regEval = c.regionEval(b, rg)
				if r2 := c.findRegion(b, 2, 10); r2 != nil && len(r2.blocks) < len(rg.blocks) {
					regEval2 = c.regionEval(b, r2)
				}
			}
			bk.term = func(fr *frame) int {
				v := cond.get(fr)
				if v.P == nil {
					if v.U != 0 {
						return te(fr)
					}
					return fe(fr)
				}
				if regEval != nil && fr.m.initN == 0 {
					if n, ok := regEval(fr, v); ok {
						return n
					}
					if regEval2 != nil {
						if n, ok := regEval2(fr, v); ok {
							return n
						}
					}
				}
				if fr.m.branch(v) {
					return te(fr)
				}
				return fe(fr)
			}
		case *ssa.Jump:
			bk.term = c.edge(b, b.Succs[0], 0)
		case *ssa.Return:
			var rs []opd
			for _, r := range x.Results {
				rs = append(rs, c.operand(r))
			}
			switch len(rs) {
			case 0:
				bk.term = func(fr *frame) int { return -1 }
			case 1:
				r := rs[0]
				bk.term = func(fr *frame) int { fr.ret = r.get(fr); return -1 }
			default:
				bk.term = func(fr *frame) int {
					t := make(Tuple, len(rs))
					for i := range rs {
						t[i] = rs[i].get(fr)
					}
					fr.ret = V{P: t}
					return -1
				}
			}
		case *ssa.Panic:
			v := c.operand(x.X)
			bk.term = func(fr *frame) int {
				iv := v.get(fr)
				panic(goPanic{v: iv, msg: fr.m.panicText(iv)})
			}
		default:
			if o := c.instr(in); o != nil {
				bk.ops = append(bk.ops, o)
			}
		}
	}
	bk.nops = len(bk.ops) + 1
	if bk.term == nil {
		bk.term = func(fr *frame) int { return -1 }
	}
}

func (c *comp) edge(from, to *ssa.BasicBlock, k int) func(fr *frame) int {
	pi := predIndex(to, from, from.Succs, k)
	tgt := to.Index
	tb := c.fn.blocks[tgt]
	hasPhi := false
	if len(to.Instrs) > 0 {
		_, hasPhi = to.Instrs[0].(*ssa.Phi)
	}
	if !hasPhi {
		return func(fr *frame) int { return tgt }
	}
	return func(fr *frame) int {
		ph := tb.phis[pi]
		if len(ph) == 1 {
			fr.r[ph[0].dst] = ph[0].src.get(fr)
			return tgt
		}
		var tmp [8]V
		vs := tmp[:0]
		for i := range ph {
			vs = append(vs, ph[i].src.get(fr))
		}
		for i := range ph {
			fr.r[ph[i].dst] = vs[i]
		}
		return tgt
	}
}

// regionEval evaluates the pure blocks after a symbolic condition and returns
// the next block, forking at most once.
func (c *comp) regionEval(head *ssa.BasicBlock, rg *region) func(fr *frame, cond V) (int, bool) {
	fnb := c.fn.blocks
	type binfo struct {
		b    *ssa.BasicBlock
		cond opd
		isIf bool
	}
	infos := map[*ssa.BasicBlock]*binfo{}
	for _, b := range append([]*ssa.BasicBlock{head}, rg.blocks...) {
		bi := &binfo{b: b}
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			bi.isIf = true
			bi.cond = c.operand(x.Cond)
		}
		infos[b] = bi
	}
	type inEdge struct {
		from   *ssa.BasicBlock
		taken  int
		predIx int
	}
	edgesInto := map[*ssa.BasicBlock][]inEdge{}
	inReg := map[*ssa.BasicBlock]bool{}
	for _, b := range rg.blocks {
		inReg[b] = true
	}
	for _, b := range append([]*ssa.BasicBlock{head}, rg.blocks...) {
		for k, s := range b.Succs {
			if inReg[s] {
				edgesInto[s] = append(edgesInto[s], inEdge{b, k, predIndex(s, b, b.Succs, k)})
			}
		}
	}
	for _, e := range rg.edges {
		edgesInto[e.to] = append(edgesInto[e.to], inEdge{e.from, e.taken, e.predIx})
	}
	return func(fr *frame, cond V) (int, bool) {
		m := fr.m
		bc := map[*ssa.BasicBlock]*smt.Term{head: m.c.True}
		edgeCond := func(e inEdge) *smt.Term {
			base := bc[e.from]
			if base == m.c.False {
				return base
			}
			bi := infos[e.from]
			if !bi.isIf {
				return base
			}
			var t *smt.Term
			if e.from == head {
				t = cond.P.(*smt.Term)
			} else {
				t = m.term(bi.cond.get(fr), 0)
			}
			if e.taken == 1 {
				t = m.c.Not(t)
			}
			return m.c.And(base, t)
		}
		// merge phis of b from the incoming edges; false when not mergeable
		mergePhis := func(b *ssa.BasicBlock, es []inEdge, conds []*smt.Term) bool {
			bk := fnb[b.Index]
			n := len(bk.phis[es[0].predIx])
			if n == 0 {
				return true
			}
			vals := make([]V, n)
			for i := 0; i < n; i++ {
				t := bk.phis[es[0].predIx][i].t
				first := true
				var acc V
				for k := len(es) - 1; k >= 0; k-- {
					if conds[k] == m.c.False {
						continue
					}
					v := bk.phis[es[k].predIx][i].src.get(fr)
					if first {
						acc, first = v, false
						continue
					}
					if sameV(acc, v) {
						continue
					}
					switch t.K {
					case KInt:
						acc = m.ite(tv(conds[k]), v, acc, t.W)
					case KBool:
						acc = m.ite(tv(conds[k]), v, acc, 0)
					default:
						return false
					}
				}
				vals[i] = acc
			}
			for i := 0; i < n; i++ {
				fr.r[bk.phis[es[0].predIx][i].dst] = vals[i]
			}
			return true
		}
		for _, b := range rg.blocks {
			es := edgesInto[b]
			conds := make([]*smt.Term, len(es))
			for i, e := range es {
				conds[i] = edgeCond(e)
			}
			bc[b] = m.c.Or(conds...)
			if bc[b] == m.c.False {
				continue
			}
			if !mergePhis(b, es, conds) {
				return 0, false
			}
			for _, o := range fnb[b.Index].ops {
				o(fr)
			}
			m.steps += int64(len(fnb[b.Index].ops))
		}
		ec := make([][]*smt.Term, len(rg.exits))
		tot := make([]*smt.Term, len(rg.exits))
		for i, x := range rg.exits {
			for _, e := range edgesInto[x] {
				ec[i] = append(ec[i], edgeCond(e))
			}
			tot[i] = m.c.Or(ec[i]...)
		}
		if len(rg.exits) == 1 {
			x := rg.exits[0]
			if !mergePhis(x, edgesInto[x], ec[0]) {
				return 0, false
			}
			return x.Index, true
		}
		// Several exits: test that all can be merged before forking.
		save := make([]V, len(fr.r))
		copy(save, fr.r)
		var live []int
		for i, x := range rg.exits {
			if tot[i] == m.c.False {
				continue
			}
			live = append(live, i)
			if !mergePhis(x, edgesInto[x], ec[i]) {
				copy(fr.r, save)
				return 0, false
			}
			copy(fr.r, save)
		}
		k := live[len(live)-1]
		for _, i := range live[:len(live)-1] {
			if m.branch(tv(tot[i])) {
				k = i
				break
			}
		}
		x := rg.exits[k]
		mergePhis(x, edgesInto[x], ec[k])
		return x.Index, true
	}
}

func sameV(a, b V) bool {
	if a.U != b.U {
		return false
	}
	switch x := a.P.(type) {
	case nil:
		return b.P == nil
	case Tuple:
		return false
	case string:
		y, ok := b.P.(string)
		return ok && x == y
	}
	if _, ok := b.P.(Tuple); ok {
		return false
	}
	return a.P == b.P
}
