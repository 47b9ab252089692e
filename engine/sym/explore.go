package sym

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/engine/smt"
)

// Entry is one harness function to explore.
type Entry struct {
	F      *ssa.Function
	Res    *Result
	MaxSec float64 // share of worker time it may take; 0: no own limit

	queue  []item
	active int
	used   time.Duration
	closed bool
}

type item struct {
	prefix []Dec
	model  smt.Model
}

type Explorer struct {
	cfg     *Config
	prog    *ssa.Program
	entries []*Entry
	init    []*ssa.Package
	mu      sync.Mutex
	cond    *sync.Cond
	busy    int
	stopped bool
	Stats   smt.Stats
	Verbose bool
}

func NewExplorer(cfg *Config, prog *ssa.Program, initPkgs []*ssa.Package, es []*Entry) *Explorer {
	x := &Explorer{cfg: cfg, prog: prog, entries: es, init: initPkgs}
	x.cond = sync.NewCond(&x.mu)
	for _, e := range es {
		e.queue = []item{{}}
	}
	return x
}

// next returns the next piece of work: the entry that has used the least time.
func (x *Explorer) next() (*Entry, item, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stopped {
			return nil, item{}, false
		}
		if !x.cfg.Deadline.IsZero() && time.Now().After(x.cfg.Deadline) {
			x.stopped = true
			x.cond.Broadcast()
			return nil, item{}, false
		}
		var best *Entry
		for _, e := range x.entries {
			if len(e.queue) > 0 && !e.closed && (best == nil || e.used < best.used) {
				best = e
			}
		}
		if best != nil {
			it := best.queue[len(best.queue)-1]
			best.queue = best.queue[:len(best.queue)-1]
			best.active++
			x.busy++
			return best, it, true
		}
		if x.busy == 0 {
			x.stopped = true
			x.cond.Broadcast()
			return nil, item{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) add(e *Entry, it item) {
	x.mu.Lock()
	e.queue = append(e.queue, it)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) done(e *Entry, d time.Duration) {
	x.mu.Lock()
	e.active--
	e.used += d
	x.busy--
	e.Res.Time += d
	if !e.closed {
		if e.MaxSec > 0 && e.used.Seconds() > e.MaxSec {
			e.closed = true
			e.Res.Left += len(e.queue)
			if len(e.queue) > 0 {
				e.Res.incomplete("time", "time limit of this harness function reached")
			}
			e.queue = nil
		}
		e.Res.mu.Lock()
		nv := e.Res.ViolN
		nk := 0
		for _, v := range e.Res.Viol {
			if len(v.Known) > 0 {
				nk++
			}
		}
		unk := len(e.Res.Viol) - nk
		e.Res.mu.Unlock()
		if unk > 0 && x.cfg.First {
			x.stopped = true
		}
		if nv > 400 || (unk > 0 && nv > x.cfg.MaxViol) {
			e.closed = true
			if len(e.queue) > 0 {
				e.Res.Left += len(e.queue)
				e.Res.incomplete("stopped", "enough violations found")
			}
			e.queue = nil
		}
	}
	x.mu.Unlock()
	x.cond.Broadcast()
}

// Run explores every entry with the configured number of workers.
func (x *Explorer) Run() {
	var wg sync.WaitGroup
	for i := 0; i < x.cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker()
		}()
	}
	if !x.cfg.Deadline.IsZero() {
		t := time.AfterFunc(time.Until(x.cfg.Deadline)+time.Second, func() { x.cond.Broadcast() })
		defer t.Stop()
	}
	wg.Wait()
	for _, e := range x.entries {
		if len(e.queue) > 0 {
			e.Res.Left += len(e.queue)
			e.Res.incomplete("time", "time limit of the check reached")
		}
	}
}

func (x *Explorer) worker() {
	var m *M
	closeM := func() {
		if m != nil {
			m.s.Close()
			x.mu.Lock()
			x.Stats.Add(m.s.Stats)
			x.mu.Unlock()
			m = nil
		}
	}
	defer closeM()
	for {
		e, it, ok := x.next()
		if !ok {
			return
		}
		t0 := time.Now()
		if m != nil && m.c.Size() > 6_000_000 {
			closeM()
		}
		if m == nil {
			m = NewM(x.cfg, x.prog, e.Res)
			for _, p := range x.init {
				m.initPkg(p)
			}
		}
		m.res = e.Res
		m.runPath(x, e, it)
		x.done(e, time.Since(t0))
	}
}

func (m *M) runPath(x *Explorer, e *Entry, it item) {
	m.reset()
	m.prefix = it.prefix
	m.setModel(it.model)
	m.pending = func(p []Dec, md smt.Model) {
		// hash variables are numbered per worker
		var c smt.Model
		if md != nil {
			c = make(smt.Model, len(md))
			for k, v := range md {
				if !strings.HasPrefix(k, "H") {
					c[k] = v
				}
			}
		}
		x.add(e, item{p, c})
	}
	kind, msg := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch a := r.(type) {
			case abort:
				kind, msg = a.kind, a.msg
			case goPanic:
				kind, msg = "panic", a.msg
			default:
				kind, msg = "unsupported", fmt.Sprintf("engine: %v at %s", r, m.where())
				if x.Verbose {
					dbg("engine panic: %v\n%s", r, debug.Stack())
				}
			}
		}()
		m.call(m.fn(e.F), nil, nil)
	}()
	if kind == "panic" {
		kind, msg = m.escaped(msg)
	}
	r := e.Res
	r.mu.Lock()
	r.Paths++
	r.Decs += len(m.decs) - len(m.prefix)
	if len(m.decs) > r.MaxDec {
		r.MaxDec = len(m.decs)
	}
	r.Steps += m.steps
	r.Asserts += m.asserts
	switch kind {
	case "done":
		r.Done++
	case "infeasible":
		r.Infeas++
	}
	if kind == "done" || kind == "violation" {
		for k := range m.reach {
			r.Reach[k]++
		}
	}
	for f := range m.funcsHit {
		r.Funcs[f.short()] = true
	}
	for k, n := range m.branchAt {
		r.BranchAt[k] += n
	}
	// one sample model per reached path, spread over the exploration
	want := kind == "done" && (len(r.Samples) < m.cfg.Samples || r.Done%(1+r.Done/m.cfg.Samples) == 0)
	r.mu.Unlock()
	m.funcsHit = map[*Fn]bool{}
	m.branchAt = map[string]int{}
	if want && m.validSample() {
		in := m.endModel()
		r.mu.Lock()
		if len(r.Samples) < m.cfg.Samples {
			r.Samples = append(r.Samples, in)
		} else {
			r.Samples[(r.Done/(1+r.Done/m.cfg.Samples))%m.cfg.Samples] = in
		}
		r.mu.Unlock()
	}
	switch kind {
	case "unsupported", "budget", "unknown":
		r.incomplete(kind, msg)
		if kind == "budget" && (strings.HasPrefix(msg, "more than ") || strings.HasPrefix(msg, "call depth ") || strings.HasPrefix(msg, "a path was not finished")) && m.validSample() {
			// it may be that the code does not end for these inputs: the replay tells
			in := m.endModel()
			r.addViolation(&Violation{Label: "termination", Msg: msg, Where: m.where(), Known: m.knownHit, Inputs: in, Size: len(in)})
		}
	}
	m.rollback()
}

// escaped handles a panic that leaves the harness function.
func (m *M) escaped(msg string) (kind, out string) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				kind, out = a.kind, a.msg
				return
			}
			panic(r)
		}
	}()
	if m.replaying() {
		return "unsupported", "panic while replaying a prefix: " + msg
	}
	m.res.assertSeen("panic")
	m.violation("panic", msg)
	return "violation", msg
}

// validSample makes sure the path has a model to sample.
func (m *M) validSample() (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return m.haveModel()
}

// SortedFuncs lists the functions of the repository that were executed.
func (r *Result) SortedFuncs() []string {
	var fs []string
	for f := range r.Funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	return fs
}
