package smt

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Stats struct {
	Queries, Sat, Unsat, Unknown int
	OneShot                      int
	Errors                       int
	Time                         time.Duration
}

func (s *Stats) Add(o Stats) {
	s.Queries += o.Queries
	s.Sat += o.Sat
	s.Unsat += o.Unsat
	s.Unknown += o.Unknown
	s.OneShot += o.OneShot
	s.Errors += o.Errors
	s.Time += o.Time
}

// Solver drives one incremental solver process.
type Solver struct {
	Bin       string
	Args      []string
	SoftMS    int // per incremental query
	HardS     int // one-shot fallback limit
	Stats     Stats
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	lines     chan string
	printed   map[int]bool
	stack     []*Term
	nprinted  int
	restarts  int
	LastError string
	Dir       string
	// OnPush is told of every newly asserted path constraint and may return
	// further constraints to assert with it (hash axioms).
	OnPush func(t *Term) []*Term
}

func NewSolver() *Solver {
	return &Solver{Bin: "z3-new", Args: []string{"-in", "-smt2"}, SoftMS: 4000, HardS: 40}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.Bin, s.Args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	lines := make(chan string, 64)
	s.lines = lines
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(lines)
				return
			}
			lines <- strings.TrimRight(l, "\r\n")
		}
	}()
	s.printed = map[int]bool{}
	s.nprinted = 0
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.SoftMS)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func ref(t *Term) string {
	switch t.Op {
	case OConst:
		return t.constText()
	case OVar:
		return "|" + t.Name + "|"
	}
	return fmt.Sprintf("t%d", t.ID)
}

func printDefs(w io.Writer, t *Term, printed map[int]bool, n *int) {
	if t.Op == OConst || printed[t.ID] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if printed[f.t.ID] || f.t.Op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.A) {
			a := f.t.A[f.i]
			f.i++
			if a.Op != OConst && !printed[a.ID] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		if x.quo != nil && x.quo.Op != OConst && !printed[x.quo.ID] {
			st = append(st, fr{x.quo, 0})
			continue
		}
		if x.Op == OUDiv && x.divDef() {
			fmt.Fprintf(w, "(declare-const t%d %s)\n", x.ID, sortText(x.W))
		} else if x.Op == OVar {
			fmt.Fprintf(w, "(declare-const |%s| %s)\n", x.Name, sortText(x.W))
		} else {
			fmt.Fprintf(w, "(define-fun t%d () %s %s)\n", x.ID, sortText(x.W), x.body(ref))
		}
		printed[x.ID] = true
		*n++
		st = st[:len(st)-1]
	}
}

func (s *Solver) expand(t *Term) []*Term {
	out := []*Term{t}
	if s.OnPush != nil {
		out = append(out, s.OnPush(t)...)
	}
	return out
}

func (s *Solver) readLine(limit time.Duration) (string, bool) {
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-time.After(limit):
		return "", false
	}
}

func (s *Solver) sync(path []*Term) {
	if s.cmd == nil || s.nprinted > 400000 {
		s.Close()
		s.start()
	}
	n := 0
	for n < len(path) && n < len(s.stack) && path[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range path[n:] {
		fmt.Fprintf(s.in, "(push 1)\n")
		for _, x := range s.expand(t) {
			printDefs(s.in, x, s.printed, &s.nprinted)
			fmt.Fprintf(s.in, "(assert %s)\n", ref(x))
		}
		s.stack = append(s.stack, t)
	}
}

// Check decides path ∧ extra. With vars given and Sat, it returns a model.
func (s *Solver) Check(path []*Term, extra *Term, vars []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Stats.Time += time.Since(t0) }()
	s.Stats.Queries++
	r, m := s.check(path, extra, vars)
	if r == Unknown {
		s.Stats.OneShot++
		r, m = s.oneShot(path, extra, vars)
	}
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return r, m
}

func (s *Solver) check(path []*Term, extra *Term, vars []*Term) (Result, Model) {
	s.sync(path)
	for _, x := range s.expand(extra) {
		printDefs(s.in, x, s.printed, &s.nprinted)
	}
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, x := range s.expand(extra) {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(x))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if s.in.Flush() != nil {
		s.Close()
		return Unknown, nil
	}
	limit := time.Duration(s.SoftMS)*time.Millisecond*2 + 5*time.Second
	l, ok := s.readLine(limit)
	if !ok {
		s.Close()
		return Unknown, nil
	}
	if strings.HasPrefix(l, "(error") {
		s.Stats.Errors++
		s.LastError = l
		s.Close()
		return Unknown, nil
	}
	var res Result
	var m Model
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		res = Unknown
	}
	if res == Sat && len(vars) > 0 {
		m = s.getModel(vars)
		if m == nil {
			s.Close()
			return Unknown, nil
		}
	} else if res == Sat {
		m = Model{}
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) getModel(vars []*Term) Model {
	m := Model{}
	for i := 0; i < len(vars); i += 200 {
		part := vars[i:min(len(vars), i+200)]
		for _, v := range part {
			printDefs(s.in, v, s.printed, &s.nprinted)
		}
		fmt.Fprint(s.in, "(get-value (")
		for _, v := range part {
			fmt.Fprintf(s.in, "|%s| ", v.Name)
		}
		fmt.Fprint(s.in, "))\n(echo \"#end\")\n")
		s.in.Flush()
		var sb strings.Builder
		for {
			l, ok := s.readLine(20 * time.Second)
			if !ok {
				return nil
			}
			if strings.Trim(l, "\"") == "#end" {
				break
			}
			if strings.HasPrefix(l, "(error") {
				s.LastError = l
				return nil
			}
			sb.WriteString(l)
			sb.WriteByte('\n')
		}
		parseValues(sb.String(), m)
	}
	return m
}

// parseValues reads ((|a| #x00) (b true) ...), with or without bars.
func parseValues(txt string, m Model) {
	var toks []string
	for i := 0; i < len(txt); {
		switch c := txt[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			toks = append(toks, txt[i:i+1])
			i++
		case c == '|':
			k := strings.IndexByte(txt[i+1:], '|')
			if k < 0 {
				return
			}
			toks = append(toks, txt[i:i+k+2])
			i += k + 2
		default:
			k := i
			for k < len(txt) && !strings.ContainsRune(" \n\t\r()|", rune(txt[k])) {
				k++
			}
			toks = append(toks, txt[i:k])
			i = k
		}
	}
	for i := 0; i+2 < len(toks); i++ {
		if toks[i] != "(" || toks[i+1] == "(" || toks[i+1] == ")" || toks[i+1] == "_" {
			continue
		}
		name := strings.Trim(toks[i+1], "|")
		if toks[i+2] == "(" { // (_ bv5 8)
			if i+4 < len(toks) {
				m[name] = parseConst("(_ " + toks[i+4] + ")")
			}
			i += 5
			continue
		}
		m[name] = parseConst(toks[i+2])
		i += 2
	}
}

func parseConst(s string) *big.Int {
	switch {
	case s == "true":
		return big.NewInt(1)
	case s == "false":
		return new(big.Int)
	case strings.HasPrefix(s, "#x"):
		v, _ := new(big.Int).SetString(s[2:], 16)
		return v
	case strings.HasPrefix(s, "#b"):
		v, _ := new(big.Int).SetString(s[2:], 2)
		return v
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(strings.TrimSuffix(s[5:], ")"))
		v, _ := new(big.Int).SetString(f[0], 10)
		return v
	}
	return new(big.Int)
}

// oneShot decides the query in fresh processes with a longer limit.
func (s *Solver) oneShot(path []*Term, extra *Term, vars []*Term) (Result, Model) {
	f, err := os.CreateTemp(s.Dir, "q*.smt2")
	if err != nil {
		return Unknown, nil
	}
	name := f.Name()
	defer os.Remove(name)
	w := bufio.NewWriter(f)
	fmt.Fprintf(w, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	printed := map[int]bool{}
	n := 0
	for _, t := range append(append([]*Term{}, path...), extra) {
		for _, x := range s.expand(t) {
			printDefs(w, x, printed, &n)
			fmt.Fprintf(w, "(assert %s)\n", ref(x))
		}
	}
	for _, v := range vars {
		printDefs(w, v, printed, &n)
	}
	fmt.Fprintf(w, "(check-sat)\n")
	if len(vars) > 0 {
		fmt.Fprintf(w, "(get-value (")
		for _, v := range vars {
			fmt.Fprintf(w, "|%s| ", v.Name)
		}
		fmt.Fprintf(w, "))\n")
	}
	w.Flush()
	f.Close()
	if d := os.Getenv("GOSYM_KEEP"); d != "" {
		b, _ := os.ReadFile(name)
		os.WriteFile(filepath.Join(d, filepath.Base(name)), b, 0o644)
	}
	type ans struct {
		r Result
		m Model
	}
	runs := [][]string{
		{"z3-new", fmt.Sprintf("-T:%d", s.HardS), name},
		{"cvc5", "--produce-models", fmt.Sprintf("--tlimit=%d", s.HardS*1000), name},
		{"cvc5", "--produce-models", "--solve-bv-as-int=sum", "--nl-ext-tplanes", fmt.Sprintf("--tlimit=%d", s.HardS*1000), name},
	}
	ch := make(chan ans, len(runs))
	var cmds []*exec.Cmd
	for _, a := range runs {
		c := exec.Command(a[0], a[1:]...)
		cmds = append(cmds, c)
		go func() {
			out, _ := c.Output()
			txt := string(out)
			l := txt
			if i := strings.IndexByte(txt, '\n'); i >= 0 {
				l = txt[:i]
			}
			switch strings.TrimSpace(l) {
			case "sat":
				m := Model{}
				parseValues(txt[len(l):], m)
				ch <- ans{Sat, m}
			case "unsat":
				ch <- ans{Unsat, nil}
			default:
				ch <- ans{Unknown, nil}
			}
		}()
	}
	defer func() {
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}()
	for range runs {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}
