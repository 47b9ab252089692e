package sym

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verif/engine/smt"
)

// abort ends the current path. Kinds: unsupported, budget, infeasible,
// violation, stop, unknown.
type abort struct {
	kind string
	msg  string
}

// goPanic is a panic of the executed program.
type goPanic struct {
	v   V // interface value
	msg string
	rt  bool
}

// Dec is one recorded decision of a path.
type Dec struct {
	Taken  bool
	Forced bool
	Val    uint64 // concretised value, or choice
	HasVal bool
}

// Input is one symbolic (or chosen) harness input, in creation order.
type Input struct {
	Kind string // u8,u16,u32,u64,bool,choose
	Name string
	T    *smt.Term
	Val  uint64
}

// M is one worker: an interpreter with its own heap, terms and solver.
type M struct {
	c      *smt.Ctx
	s      *smt.Solver
	prog   *ssa.Program
	cfg    *Config
	fns    map[*ssa.Function]*Fn
	glob   map[*ssa.Global]*V
	inited map[*ssa.Package]bool
	tiMap  typeutil.Map
	tiFast map[types.Type]*TI
	methC  map[methKey]*Fn
	regs   []V
	trail  []trailEnt
	undo   []func()
	epoch  int
	initN  int // >0: running package init

	// path state
	prefix   []Dec
	decs     []Dec
	path     []*smt.Term
	lits     map[*smt.Term]bool // facts known on the path
	model    smt.Model
	ev       *smt.Eval
	inputs   []Input
	nvar     int
	steps    int64
	maxSteps int64
	nextLook int64
	depth    int
	pending  func(prefix []Dec, model smt.Model)
	pathLog  []string
	reach    map[string]bool
	asserts  int
	notes    map[string]bool
	stack    []*Fn
	inHash   int
	faultOn  bool
	vars     []*smt.Term
	knownHit map[string]string
	objs     map[string]any // per path state of native stubs
	sched    *sched
	lastFn   string
	mapPerm  bool
	outs     []string
	nDefault int

	res *Result

	hashVars  map[string]*smt.Term
	hashEqs   map[[2]int]*smt.Term
	hashList  []*smt.Term
	pairSeen  map[[2]int]bool
	funcsHit  map[*Fn]bool
	branchAt  map[string]int
	rtypeTI   *TI
	errTI     *TI
	natTIs    map[string]*TI
	fresh     int
	panicking []*frame
	implC     map[methKey]bool
	onHuge    func()
	pureMemo  map[*ssa.Function]bool
}

type methKey struct {
	t  *TI
	id string
}

func NewM(cfg *Config, prog *ssa.Program, res *Result) *M {
	m := &M{c: smt.NewCtx(), s: smt.NewSolver(), prog: prog, cfg: cfg, fns: map[*ssa.Function]*Fn{}, glob: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{},
		tiFast: map[types.Type]*TI{}, methC: map[methKey]*Fn{}, hashVars: map[string]*smt.Term{}, hashEqs: map[[2]int]*smt.Term{}, pairSeen: map[[2]int]bool{}, funcsHit: map[*Fn]bool{}, branchAt: map[string]int{}, natTIs: map[string]*TI{}, implC: map[methKey]bool{}, pureMemo: map[*ssa.Function]bool{}, res: res}
	m.tiMap.SetHasher(typeutil.MakeHasher())
	m.c.EqHook = m.hashEq
	m.s.OnPush = m.axioms
	m.s.SoftMS = cfg.SoftMS
	m.s.HardS = cfg.HardS
	m.reset()
	if t := m.named("reflect", "rtype"); t != nil {
		m.rtypeTI = m.ti(types.NewPointer(t.T))
	}
	m.errTI = m.ti(types.Universe.Lookup("error").Type())
	return m
}

func (m *M) reset() {
	m.path = m.path[:0]
	m.lits = map[*smt.Term]bool{}
	m.decs = nil
	m.inputs = nil
	m.nvar = 0
	m.steps = 0
	m.depth = 0
	m.reach = map[string]bool{}
	m.asserts = 0
	m.notes = map[string]bool{}
	m.vars = nil
	m.stack = m.stack[:0]
	m.model = nil
	m.ev = nil
	m.objs = map[string]any{}
	m.outs = nil
	m.mapPerm = false
	m.faultOn = false
	m.knownHit = nil
	m.sched = nil
	m.fresh = 0
	m.panicking = nil
	m.onHuge = nil
	m.regs = m.regs[:0]
	m.maxSteps, m.nextLook = m.cfg.MaxSteps, 0
	m.epoch++
}

// rollback undoes every heap change made since the mark.
func (m *M) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		*m.trail[i].p = m.trail[i].old
	}
	m.trail = m.trail[:0]
	for i := len(m.undo) - 1; i >= 0; i-- {
		m.undo[i]()
	}
	m.undo = m.undo[:0]
}

func (m *M) note(s string) { m.notes[s] = true }

// setModel installs a candidate model; it is kept only if it satisfies the path.
func (m *M) setModel(md smt.Model) {
	if md == nil {
		m.model, m.ev = nil, nil
		return
	}
	m.model = md
	m.ev = smt.NewEval(md)
	m.ev.Default = m.defaultVar
}

// haveModel makes sure there is a model of the current path.
func (m *M) haveModel() bool {
	if m.ev != nil {
		return true
	}
	r, md := m.s.Check(m.path, m.c.True, m.modelVars(nil))
	if r == smt.Sat {
		m.setModel(md)
		return true
	}
	if r == smt.Unsat {
		panic(abort{kind: "infeasible"})
	}
	panic(abort{kind: "unknown", msg: "path condition undecided"})
}

func (m *M) modelVars(extra *smt.Term) []*smt.Term {
	vs := append([]*smt.Term{}, m.vars...)
	seen := map[*smt.Term]bool{}
	for _, p := range m.path {
		smt.Vars(p, seen, func(t *smt.Term) {
			if t.Tag != nil {
				vs = append(vs, t)
			}
		})
	}
	if extra != nil {
		smt.Vars(extra, seen, func(t *smt.Term) {
			if t.Tag != nil {
				vs = append(vs, t)
			}
		})
	}
	return vs
}

func (m *M) push(c *smt.Term) {
	if c == m.c.True {
		return
	}
	m.path = append(m.path, c)
	m.learn(c, true)
}

// learn records a fact that follows from the path, so that asking for it
// again costs no query. Facts are learned at the same points when a path is
// replayed.
func (m *M) learn(t *smt.Term, v bool) {
	if _, ok := m.lits[t]; ok {
		return
	}
	m.lits[t] = v
	switch {
	case t.Op == smt.ONot:
		m.learn(t.A[0], !v)
	case t.Op == smt.OAnd && v, t.Op == smt.OOr && !v:
		for _, a := range t.A {
			m.learn(a, v)
		}
	}
}

func (m *M) knownFact(t *smt.Term) (v, ok bool) {
	v, ok = m.lits[t]
	if !ok && t.Op == smt.ONot {
		v, ok = m.lits[t.A[0]]
		v = !v
	}
	return
}

// branch decides a boolean value.
func (m *M) branch(v V) bool {
	if v.P == nil {
		return v.U != 0
	}
	t := v.P.(*smt.Term)
	if t.Op == smt.OConst {
		return t == m.c.True
	}
	return m.decide(t)
}

func (m *M) checkInit() {
	if m.initN > 0 {
		panic(abort{kind: "unsupported", msg: "symbolic value in package init"})
	}
}

func (m *M) replayDec() (Dec, bool) {
	if len(m.decs) < len(m.prefix) {
		d := m.prefix[len(m.decs)]
		m.decs = append(m.decs, d)
		return d, true
	}
	return Dec{}, false
}

// atFrontier is called when the recorded prefix has just been used up.
func (m *M) validateHint() {
	if m.ev == nil {
		return
	}
	for _, p := range m.path {
		if !m.ev.Bool(p) {
			m.setModel(nil)
			return
		}
	}
}

func (m *M) decide(t *smt.Term) bool {
	m.checkInit()
	if v, ok := m.knownFact(t); ok {
		return v
	}
	if d, ok := m.replayDec(); ok {
		if !d.Forced {
			if d.Taken {
				m.push(t)
			} else {
				m.push(m.c.Not(t))
			}
		} else {
			m.learn(t, d.Taken)
		}
		if len(m.decs) == len(m.prefix) {
			m.validateHint()
		}
		return d.Taken
	}
	if len(m.decs) >= m.cfg.MaxDecs {
		panic(abort{kind: "budget", msg: fmt.Sprintf("more than %d decisions on one path", m.cfg.MaxDecs)})
	}
	m.haveModel()
	b := m.ev.Bool(t)
	cur, oth := t, m.c.Not(t)
	if !b {
		cur, oth = oth, cur
	}
	r, md := m.s.Check(m.path, oth, m.modelVars(oth))
	if m.cfg.Profile {
		m.branchAt[m.where()]++
	}
	switch r {
	case smt.Unsat:
		m.decs = append(m.decs, Dec{Taken: b, Forced: true})
		m.learn(t, b)
		return b
	case smt.Sat:
		m.fork(Dec{Taken: !b}, md)
	default:
		m.res.incomplete("unknown", "solver could not decide a branch at "+m.where())
	}
	m.decs = append(m.decs, Dec{Taken: b})
	m.push(cur)
	return b
}

func (m *M) fork(alt Dec, md smt.Model) {
	p := make([]Dec, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = alt
	m.pending(p, md)
}

// choose makes an unconstrained choice among n alternatives.
func (m *M) choose(n int) int {
	m.checkInit()
	if n <= 1 {
		return 0
	}
	if d, ok := m.replayDec(); ok {
		if len(m.decs) == len(m.prefix) {
			m.validateHint()
		}
		return int(d.Val)
	}
	for i := n - 1; i >= 1; i-- {
		m.fork(Dec{Val: uint64(i), HasVal: true, Taken: true}, m.model)
	}
	m.decs = append(m.decs, Dec{Val: 0, HasVal: true, Taken: true})
	return 0
}

// concretize enumerates the feasible values of v; each becomes its own path.
func (m *M) concretize(v V, w int) int {
	if v.P == nil {
		return int(sx(v.U, w))
	}
	t := v.P.(*smt.Term)
	m.checkInit()
	for n := 0; ; n++ {
		if d, ok := m.replayDec(); ok {
			k := m.c.Const(t.W, d.Val)
			eq := m.c.Eq(t, k)
			if d.Taken {
				if !d.Forced {
					m.push(eq)
				}
			} else {
				m.push(m.c.Not(eq))
			}
			if len(m.decs) == len(m.prefix) {
				m.validateHint()
			}
			if d.Taken {
				return int(sx(d.Val, t.W))
			}
			continue
		}
		if n > m.cfg.MaxConc {
			panic(abort{kind: "budget", msg: "too many values of a size or index at " + m.where()})
		}
		m.haveModel()
		val := m.ev.Val(t).Uint64()
		eq := m.c.Eq(t, m.c.Const(t.W, val))
		r, md := m.s.Check(m.path, m.c.Not(eq), m.modelVars(eq))
		switch r {
		case smt.Unsat:
			m.decs = append(m.decs, Dec{Taken: true, Forced: true, Val: val, HasVal: true})
			return int(sx(val, t.W))
		case smt.Sat:
			m.fork(Dec{Taken: false, Val: val, HasVal: true}, md)
		default:
			m.res.incomplete("unknown", "solver could not enumerate a size at "+m.where())
		}
		m.decs = append(m.decs, Dec{Taken: true, Val: val, HasVal: true})
		m.push(eq)
		return int(sx(val, t.W))
	}
}

// assume restricts the path.
func (m *M) assume(v V) {
	if v.P == nil {
		if v.U == 0 {
			panic(abort{kind: "infeasible"})
		}
		return
	}
	t := v.P.(*smt.Term)
	if v, ok := m.knownFact(t); ok && v {
		return
	}
	if d, ok := m.replayDec(); ok {
		if !d.Forced {
			m.push(t)
		}
		if len(m.decs) == len(m.prefix) {
			m.validateHint()
		}
		return
	}
	m.haveModel()
	if !m.ev.Bool(t) {
		r, md := m.s.Check(m.path, t, m.modelVars(t))
		switch r {
		case smt.Unsat:
			panic(abort{kind: "infeasible"})
		case smt.Unknown:
			m.res.incomplete("unknown", "solver could not decide an assumption")
			panic(abort{kind: "unknown", msg: "assumption undecided"})
		}
		m.setModel(md)
	}
	m.decs = append(m.decs, Dec{Taken: true})
	m.push(t)
}

// assert checks the property on this path.
func (m *M) assert(v V, label string) {
	m.asserts++
	m.res.assertSeen(label)
	if v.P == nil {
		if v.U == 0 {
			if m.replaying() {
				panic(abort{kind: "infeasible"}) // reported by the path that recorded this prefix
			}
			m.haveModel()
			m.violation(label, "assertion failed")
			panic(abort{kind: "violation"})
		}
		return
	}
	t := v.P.(*smt.Term)
	if d, ok := m.replayDec(); ok {
		if !d.Forced {
			m.push(t)
		}
		if len(m.decs) == len(m.prefix) {
			m.validateHint()
		}
		return
	}
	neg := m.c.Not(t)
	r, md := smt.Unsat, smt.Model(nil)
	if v, ok := m.knownFact(t); !ok || !v {
		r, md = m.s.Check(m.path, neg, m.modelVars(neg))
	}
	m.res.obligation(label, r)
	switch r {
	case smt.Unsat:
		m.decs = append(m.decs, Dec{Taken: true, Forced: true})
		return
	case smt.Unknown:
		m.res.incomplete("unknown", "solver could not decide assertion "+label)
		m.decs = append(m.decs, Dec{Taken: true})
		m.push(t)
		if m.ev != nil && !m.ev.Bool(t) {
			m.setModel(nil)
		}
		return
	}
	save, sev := m.model, m.ev
	m.setModel(md)
	m.path = append(m.path, neg)
	m.violation(label, "assertion failed")
	m.path = m.path[:len(m.path)-1]
	m.model, m.ev = save, sev
	m.decs = append(m.decs, Dec{Taken: true})
	if m.ev != nil && !m.ev.Bool(t) {
		m.setModel(nil)
	}
	if m.ev == nil {
		r, md := m.s.Check(m.path, t, m.modelVars(t))
		if r != smt.Sat {
			panic(abort{kind: "violation"})
		}
		m.setModel(md)
	}
	m.push(t)
}

func (m *M) replaying() bool { return len(m.decs) < len(m.prefix) }

func (m *M) violation(label, msg string) {
	m.haveModel()
	v := &Violation{Label: label, Msg: msg, Where: m.where(), Known: m.knownHit}
	for _, in := range m.inputs {
		val := in.Val
		if in.T != nil {
			x := m.ev.Val(in.T)
			val = x.Uint64()
		}
		v.Inputs = append(v.Inputs, InVal{Kind: in.Kind, Name: in.Name, Val: val})
	}
	v.Size = len(v.Inputs)
	m.res.addViolation(v)
}

// endModel evaluates the inputs of a finished path.
func (m *M) endModel() []InVal {
	if m.ev == nil {
		return nil
	}
	var out []InVal
	for _, in := range m.inputs {
		val := in.Val
		if in.T != nil {
			val = m.ev.Val(in.T).Uint64()
		}
		out = append(out, InVal{Kind: in.Kind, Name: in.Name, Val: val})
	}
	return out
}

func (m *M) newInput(kind, name string, w int) V {
	m.checkInit()
	m.nvar++
	t := m.c.Var(fmt.Sprintf("i%d_%s", m.nvar, kind), w)
	m.inputs = append(m.inputs, Input{Kind: kind, Name: name, T: t})
	m.vars = append(m.vars, t)
	return V{P: t}
}

func (m *M) where() string {
	var out []string
	for i := len(m.stack) - 1; i >= 0 && len(out) < 6; i-- {
		out = append(out, m.stack[i].short())
	}
	return strings.Join(out, " < ")
}

func (m *M) unsupported(format string, a ...any) {
	panic(abort{kind: "unsupported", msg: fmt.Sprintf(format, a...) + " at " + m.where()})
}

func dbg(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func sortedKeys[T any](mm map[string]T) []string {
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = big.NewInt
