package sym

import (
	"encoding/json"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type Opts struct {
	ID, Tier, Verif, Repo string
	EntryRE               string
	Verbose, Profile      bool
	NoReplay, First       bool
	Evidence              string
	TimeS                 int
	Workers               int
	Seed                  int
}

// known reads the findings recorded for a property.
func known(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^known: property=(\S+) finding=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if mm := re.FindStringSubmatch(l); mm != nil && mm[1] == id {
			out[mm[2]] = mm[3]
		}
	}
	return out
}

// Check decides one property and returns the exit code.
func Check(o Opts) int {
	t0 := time.Now()
	if o.Evidence == "" {
		o.Evidence = filepath.Join(o.Verif, "evidence")
	}
	cfg := &Config{Module: "github.com/ThinkiumGroup/go-common", Thorough: o.Tier == "thorough", Profile: o.Profile, Workers: o.Workers, First: o.First}
	cfg.Defaults()
	h, err := ReadHarness(o.Verif, o.Repo, o.ID)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	for _, hp := range h.Pkgs {
		if hp.Dir == "log" {
			cfg.RealLog = true
		}
	}
	if err := h.Load(o.Repo); err != nil {
		// the harness no longer fits the code: nothing was decided
		fmt.Println("INCOMPLETE: harness does not compile against the code:", err)
		writeEvidence(o, h, cfg, nil, nil, t0, map[string]int{"load: " + err.Error(): 1}, nil, nil, 0)
		return 0
	}
	loadT := time.Since(t0)
	var es []*Entry
	pk := map[string]*HPkg{}
	var re *regexp.Regexp
	if o.EntryRE != "" {
		re = regexp.MustCompile(o.EntryRE)
	}
	cfg.Stubs = map[string]*ssa.Function{}
	for _, hp := range h.Pkgs {
		for t, f := range hp.Stubs {
			cfg.Stubs[t] = hp.SSA.Func(f)
		}
		for _, n := range hp.Entries {
			if re != nil && !re.MatchString(n) {
				continue
			}
			e := &Entry{F: hp.SSA.Func(n), Res: NewResult(n, hp.Dir), MaxSec: hp.MaxSec[n] * float64(cfg.Workers)}
			es = append(es, e)
			pk[hp.Dir] = hp
		}
	}
	lim := 300
	if o.Tier == "thorough" {
		lim = 780
	}
	if o.TimeS > 0 {
		lim = o.TimeS
	}
	cfg.Deadline = t0.Add(time.Duration(lim) * time.Second)
	x := NewExplorer(cfg, h.Prog, h.InitOrder(cfg.Module), es)
	x.Verbose = o.Verbose
	x.Run()
	expT := time.Since(t0) - loadT

	scratch, err := os.MkdirTemp("", "verif-"+o.ID+"-")
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	natives := map[string]*Native{}
	native := func(dir string) *Native {
		if n := natives[dir]; n != nil {
			return n
		}
		n := NewNative(pk[dir], o.Verif, o.Repo, scratch, o.Tier)
		if n.Err != nil {
			fmt.Println("note:", n.Err)
		}
		natives[dir] = n
		return n
	}
	kn := known(o.Verif, o.ID)
	extra := map[string]int{}
	exit := 0
	nviol := 0
	var vioText []string
	rdir := filepath.Join(o.Evidence, "replay")
	old, _ := filepath.Glob(filepath.Join(rdir, o.ID+"-*.json"))
	for _, p := range old {
		os.Remove(p)
	}
	report := func(v *Violation, out string) {
		nviol++
		os.MkdirAll(rdir, 0o755)
		p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", o.ID, nviol))
		b, _ := json.MarshalIndent(map[string]any{"property": o.ID, "package": v.Pkg, "entry": v.Entry, "label": v.Label, "message": v.Msg, "where": v.Where, "native_outcome": out, "inputs": v.Inputs, "tier": o.Tier,
			"how": "./check " + o.ID + " -replay " + p}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.ID, p)
		fmt.Printf("  %s/%s: %s (%s); real code: %s; inputs %s\n", v.Pkg, v.Entry, v.Label, v.Msg, out, inText(v.Inputs))
		vioText = append(vioText, v.Entry+": "+v.Label+": "+v.Msg)
		exit = 1
	}
	knownSeen := map[string]bool{}
	for _, e := range es {
		groups := map[string][]*Violation{}
		for _, v := range e.Res.Viol {
			groups[v.Key()] = append(groups[v.Key()], v)
		}
		for _, k := range sortedKeys(groups) {
			g := groups[k]
			sort.SliceStable(g, func(i, j int) bool { return g[i].Size < g[j].Size })
			ok := false
			var outs []string
			for _, v := range g {
				out := "not replayed"
				if !o.NoReplay {
					r := native(v.Pkg).Run([]rcase{{v.Entry, v.Inputs}}, 60*time.Second)
					out = r[0]
				}
				outs = append(outs, out)
				if o.Verbose || o.NoReplay {
					fmt.Printf("  candidate %s %s: %s at %s known=%v inputs=%s -> %s\n", v.Entry, v.Label, v.Msg, v.Where, v.Known, inText(v.Inputs), out)
				}
				if !reproduced(v, out) {
					continue
				}
				ok = true
				var tags []string
				for t := range v.Known {
					if _, y := kn[t]; y {
						tags = append(tags, t)
					}
				}
				sort.Strings(tags)
				if len(tags) > 0 {
					for _, t := range tags {
						if !knownSeen[t] {
							knownSeen[t] = true
							fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", o.ID, t, kn[t])
						}
					}
					break
				}
				report(v, out)
				break
			}
			if !ok {
				extra[fmt.Sprintf("unconfirmed: counterexample to %s in %s did not show on the real code (%s) at %s", g[0].Label, g[0].Entry, strings.Join(outs, ", "), g[0].Where)]++
			}
		}
	}
	// replay a sample of the explored paths natively: they must pass there too
	validated := 0
	if !o.NoReplay {
		by := map[string][]rcase{}
		for _, e := range es {
			for _, s := range e.Res.Samples {
				by[e.Res.Pkg] = append(by[e.Res.Pkg], rcase{e.Res.Entry, s})
			}
		}
		for _, d := range sortedKeys(by) {
			cs := by[d]
			outs := native(d).Run(cs, 120*time.Second)
			for i, out := range outs {
				switch {
				case out == "ok":
					validated++
				case out == "":
				case strings.HasPrefix(out, "fail:"), strings.HasPrefix(out, "panic:"):
					// the encoding passes, the code itself does not: that is what counts
					report(&Violation{Label: "native", Msg: "a path decided as passing fails when its model is run", Entry: cs[i].Entry, Pkg: d, Inputs: cs[i].Inputs}, out)
				default:
					extra[fmt.Sprintf("mismatch: a path of %s that passes symbolically gives %q natively, inputs %s", cs[i].Entry, out, inText(cs[i].Inputs))]++
				}
			}
		}
	}
	writeEvidence(o, h, cfg, es, x, t0, extra, kn, vioText, validated)
	// summary
	inc := 0
	for _, e := range es {
		r := e.Res
		un := 0
		for _, k := range sortedKeys(r.Labels) {
			ob := r.Labels[k]
			un += ob.Unsat
		}
		fmt.Printf("%s/%s: %d paths (%d complete), %d decisions, %d assertions, %d discharged by solver, %d violations, %.1fs, reach %v\n", r.Pkg, r.Entry, r.Paths, r.Done, r.Decs, r.Asserts, un, r.ViolN, r.Time.Seconds(), sortedKeys(r.Reach))
		for _, k := range sortedKeys(r.Incompl) {
			fmt.Printf("  INCOMPLETE %s (%d)\n", k, r.Incompl[k])
			inc++
		}
		if r.Done == 0 && r.ViolN == 0 {
			fmt.Printf("  INCOMPLETE no path of %s completed\n", r.Entry)
		}
		if o.Verbose {
			for _, k := range sortedKeys(r.Notes) {
				fmt.Printf("  note %s (%d)\n", k, r.Notes[k])
			}
		}
		if o.Profile {
			type kv struct {
				k string
				n int
			}
			var l []kv
			for k, n := range r.BranchAt {
				l = append(l, kv{k, n})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
			for i, z := range l {
				if i > 25 {
					break
				}
				fmt.Printf("    %6d %s\n", z.n, z.k)
			}
		}
	}
	for _, k := range sortedKeys(extra) {
		fmt.Printf("  NOTE %s (%d)\n", k, extra[k])
	}
	fmt.Printf("%s %s: load %.1fs explore %.1fs total %.1fs; %d queries (%d unsat, %d sat, %d unknown, %d one-shot), solver %.1fs; %d path samples agree natively\n", o.ID, o.Tier, loadT.Seconds(), expT.Seconds(), time.Since(t0).Seconds(),
		x.Stats.Queries, x.Stats.Unsat, x.Stats.Sat, x.Stats.Unknown, x.Stats.OneShot, x.Stats.Time.Seconds(), validated)
	return exit
}

func inText(in []InVal) string {
	var sb strings.Builder
	for i, v := range in {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 60 {
			sb.WriteString("...")
			break
		}
		switch v.Kind {
		case "choose":
			fmt.Fprintf(&sb, "c%d", v.Val)
		case "u8":
			fmt.Fprintf(&sb, "%02x", v.Val)
		default:
			fmt.Fprintf(&sb, "%s:%x", v.Kind, v.Val)
		}
	}
	return sb.String()
}

func writeEvidence(o Opts, h *Harness, cfg *Config, es []*Entry, x *Explorer, t0 time.Time, extra map[string]int, kn map[string]string, vio []string, validated int) {
	cov := map[string]any{}
	states, trans := 0, 0
	bounds := map[string]any{"decisions per path": cfg.MaxDecs, "instructions per path": cfg.MaxSteps, "bytes per allocation": cfg.MaxAlloc, "bits per big integer": cfg.MaxBig, "values per enumerated size": cfg.MaxConc}
	funcs := map[string]bool{}
	entries := []any{}
	var samples []any
	incomplete := map[string]int{}
	for k, n := range extra {
		incomplete[k] = n
	}
	var queries map[string]any
	exhaustive := es != nil
	for _, e := range es {
		r := e.Res
		states += r.Paths
		trans += r.Decs
		for k, v := range r.Bounds {
			bounds[k] = v
		}
		for f := range r.Funcs {
			funcs[f] = true
		}
		labels := map[string]any{}
		for k, ob := range r.Labels {
			labels[k] = map[string]int{"evaluated": ob.Seen, "unsat": ob.Unsat, "sat": ob.Sat, "unknown": ob.Unknown}
		}
		for k, n := range r.Incompl {
			incomplete[r.Entry+": "+k] += n
		}
		if r.Left > 0 || len(r.Incompl) > 0 {
			exhaustive = false
		}
		entries = append(entries, map[string]any{"entry": r.Entry, "package": r.Pkg, "paths": r.Paths, "completed": r.Done, "infeasible": r.Infeas, "decisions": r.Decs, "longest_path_decisions": r.MaxDec, "instructions": r.Steps,
			"assertions": labels, "reached": r.Reach, "paths_left": r.Left, "worker_s": r.Time.Seconds()})
		for i, s := range r.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]string{"entry": r.Entry, "inputs": inText(s)})
		}
	}
	if x != nil {
		queries = map[string]any{"queries": x.Stats.Queries, "unsat": x.Stats.Unsat, "sat": x.Stats.Sat, "unknown": x.Stats.Unknown, "one_shot": x.Stats.OneShot, "solver_s": x.Stats.Time.Seconds()}
	}
	if samples == nil {
		samples = []any{}
	}
	cov["states"] = states
	cov["transitions"] = trans
	cov["traces_validated_against_impl"] = validated
	cov["samples"] = samples
	cov["exhaustive"] = exhaustive && len(extra) == 0
	cov["functions_encoded"] = sortedKeys(funcs)
	cov["bounds"] = bounds
	cov["entries"] = entries
	cov["incomplete"] = incomplete
	cov["solver"] = queries
	cov["explanation"] = "states: symbolic paths ended within the bounds; transitions: branches decided by the solver or forced on them; traces_validated_against_impl: solver models of completed paths run on the compiled code with the same outcome"
	ev := map[string]any{"property": o.ID, "tier": o.Tier, "seed": o.Seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": len(vio),
		"assumptions": []string{"Keccak-256 and RIPEMD-160 are ideal (no collisions, no preimages of given constants)", "math/big, sync, reflect, fmt, errors, sort and the logging package are modelled by stubs of the engine", "the SSA of golang.org/x/tools/go/ssa represents the compiled program", "the solver's answers are right"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(o.Evidence, 0o755)
	os.WriteFile(filepath.Join(o.Evidence, o.ID+".json"), append(b, '\n'), 0o644)
}

// Replay runs one recorded counterexample against the real code.
func Replay(o Opts, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var r struct {
		Entry, Package, Tier string
		Inputs               []InVal
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	h, err := ReadHarness(o.Verif, o.Repo, o.ID)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(scratch)
	for _, hp := range h.Pkgs {
		if hp.Dir == r.Package {
			n := NewNative(hp, o.Verif, o.Repo, scratch, r.Tier)
			if n.Err != nil {
				fmt.Println("ERROR:", n.Err)
				return 2
			}
			fmt.Println(n.Run([]rcase{{r.Entry, r.Inputs}}, time.Minute)[0])
			return 0
		}
	}
	return 2
}
