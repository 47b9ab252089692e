package sym

import (
	"fmt"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"sync"
	"time"

	"verif/engine/smt"
)

// Config is shared by the workers of one check.
type Config struct {
	Module   string // module path of the code under check
	RealLog  bool   // execute the logging package instead of skipping it
	Thorough bool
	Profile  bool
	SoftMS   int
	HardS    int
	MaxDecs  int
	MaxConc  int
	MaxSteps int64
	MaxAlloc int
	MaxBig   int
	Workers  int
	Deadline time.Time
	MaxViol  int
	First    bool // stop at the first violation
	Samples  int

	Stubs map[string]*ssa.Function // executed in place of the function named

	realHash *realHashes
}

func (c *Config) Defaults() {
	d := func(p *int, v int) {
		if *p == 0 {
			*p = v
		}
	}
	d(&c.SoftMS, 700)
	d(&c.HardS, 40)
	d(&c.MaxDecs, 4000)
	d(&c.MaxConc, 300)
	d(&c.MaxAlloc, 1<<20)
	d(&c.MaxBig, 2200)
	d(&c.Workers, 8)
	d(&c.MaxViol, 24)
	d(&c.Samples, 24)
	if c.MaxSteps == 0 {
		c.MaxSteps = 30e6
	}
	c.realHash = newRealHashes()
}

// realHashes remembers digests computed from concrete bytes.
type realHashes struct {
	mu sync.Mutex
	m  map[string][]byte
}

func newRealHashes() *realHashes { return &realHashes{m: map[string][]byte{}} }

func (r *realHashes) put(alg string, in, digest []byte) {
	r.mu.Lock()
	r.m[alg+string(digest)] = append([]byte{}, in...)
	r.mu.Unlock()
}

func (r *realHashes) get(alg string, v *big.Int, n int) ([]byte, bool) {
	d := make([]byte, n)
	v.FillBytes(d)
	r.mu.Lock()
	defer r.mu.Unlock()
	in, ok := r.m[alg+string(d)]
	return in, ok
}

// InVal is the value of one harness input.
type InVal struct {
	Kind string `json:"k"`
	Name string `json:"n,omitempty"`
	Val  uint64 `json:"v"`
}

type Violation struct {
	Entry  string
	Pkg    string
	Label  string
	Msg    string
	Where  string
	Known  map[string]string
	Inputs []InVal
	Size   int
}

type Obl struct{ Seen, Unsat, Sat, Unknown int }

// Result collects what the workers of one harness entry found.
type Result struct {
	mu       sync.Mutex
	Entry    string
	Pkg      string
	Labels   map[string]*Obl
	Reach    map[string]int
	Bounds   map[string]int
	Incompl  map[string]int
	Notes    map[string]int
	Viol     []*Violation
	ViolN    int
	Paths    int
	Done     int
	Infeas   int
	Decs     int
	MaxDec   int
	Steps    int64
	Asserts  int
	Samples  [][]InVal
	Funcs    map[string]bool
	Time     time.Duration
	Left     int
	BranchAt map[string]int
}

func NewResult(entry, pkg string) *Result {
	return &Result{Entry: entry, Pkg: pkg, Labels: map[string]*Obl{}, Reach: map[string]int{}, Bounds: map[string]int{}, Incompl: map[string]int{}, Notes: map[string]int{}, Funcs: map[string]bool{}, BranchAt: map[string]int{}}
}

func (r *Result) lab(l string) *Obl {
	o := r.Labels[l]
	if o == nil {
		o = &Obl{}
		r.Labels[l] = o
	}
	return o
}

func (r *Result) incomplete(kind, msg string) {
	r.mu.Lock()
	r.Incompl[kind+": "+msg]++
	r.mu.Unlock()
}

func (r *Result) note(s string) {
	r.mu.Lock()
	r.Notes[s]++
	r.mu.Unlock()
}

func (r *Result) assertSeen(l string) {
	r.mu.Lock()
	r.lab(l).Seen++
	r.mu.Unlock()
}

func (r *Result) obligation(l string, x smt.Result) {
	r.mu.Lock()
	defer r.mu.Unlock()
	o := r.lab(l)
	switch x {
	case smt.Unsat:
		o.Unsat++
	case smt.Sat:
		o.Sat++
	default:
		o.Unknown++
	}
}

func (r *Result) bound(l string, v int) {
	r.mu.Lock()
	r.Bounds[l] = v
	r.mu.Unlock()
}

func (r *Result) addViolation(v *Violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	v.Entry, v.Pkg = r.Entry, r.Pkg
	r.ViolN++
	// keep a few per label, smallest first
	same := 0
	var worst *Violation
	for _, x := range r.Viol {
		if x.key() == v.key() {
			same++
			if worst == nil || x.Size > worst.Size {
				worst = x
			}
		}
	}
	if same < 6 {
		r.Viol = append(r.Viol, v)
		return
	}
	if v.Size < worst.Size {
		*worst = *v
	}
}

func (v *Violation) key() string { return v.Label + "|" + fmt.Sprint(sortedKeys(v.Known)) }
func (v *Violation) Key() string { return v.Entry + "|" + v.key() }
