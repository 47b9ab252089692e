package sym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Native compiles the harness of one package with the real code and replays
// inputs against it.
type Native struct {
	hp   *HPkg
	dir  string
	bin  string
	tier string
	Err  error
}

type rcase struct {
	Entry  string  `json:"entry"`
	Inputs []InVal `json:"inputs"`
}

func NewNative(h *HPkg, verif, repo, scratch, tier string) *Native {
	n := &Native{hp: h, tier: tier}
	n.dir = filepath.Join(scratch, strings.ReplaceAll(h.Dir, "/", "_"))
	if err := os.MkdirAll(n.dir, 0o755); err != nil {
		n.Err = err
		return n
	}
	repl := map[string]string{}
	put := func(base string, src []byte) {
		p := filepath.Join(n.dir, base+"_test.go")
		if err := os.WriteFile(p, src, 0o644); err != nil {
			n.Err = err
		}
		repl[filepath.Join(repo, h.Dir, base+"_test.go")] = p
	}
	for _, f := range h.Files {
		put(f.Base, f.Src)
	}
	mt, err := os.ReadFile(filepath.Join(verif, "harness", "common", "rt", "main_test.go.txt"))
	if err != nil {
		n.Err = err
		return n
	}
	put("zz_verif_main", pkgClause.ReplaceAll(mt, []byte("package "+h.Name)))
	var g strings.Builder
	fmt.Fprintf(&g, "package %s\n\nvar vrtEntries = map[string]func(){\n", h.Name)
	for _, e := range h.Entries {
		fmt.Fprintf(&g, "\t%q: %s,\n", e, e)
	}
	g.WriteString("}\n")
	put("zz_verif_entries", []byte(g.String()))
	ovf := filepath.Join(n.dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	os.WriteFile(ovf, b, 0o644)
	n.bin = filepath.Join(n.dir, "replay.test")
	pat := "./" + h.Dir
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", n.bin, pat)
	cmd.Dir = repo
	if out, err := cmd.CombinedOutput(); err != nil {
		n.Err = fmt.Errorf("native build: %v: %s", err, out)
	}
	return n
}

// Run replays the cases in one process and returns their outcomes; a case
// after a crash or timeout has no outcome.
func (n *Native) Run(cs []rcase, limit time.Duration) []string {
	out := make([]string, len(cs))
	if n.Err != nil || len(cs) == 0 {
		return out
	}
	b, _ := json.Marshal(cs)
	in := filepath.Join(n.dir, fmt.Sprintf("in%d.json", time.Now().UnixNano()))
	os.WriteFile(in, b, 0o644)
	defer os.Remove(in)
	cmd := exec.Command("prlimit", "--as=12000000000", n.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "600s")
	cmd.Dir = n.dir
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_TIER="+n.tier)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return out
	}
	t := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	last := -1
	for _, l := range strings.Split(buf.String(), "\n") {
		i := strings.Index(l, "VERIFRES ")
		if i < 0 {
			continue
		}
		f := strings.SplitN(l[i+len("VERIFRES "):], " ", 2)
		var k int
		if _, e := fmt.Sscan(f[0], &k); e == nil && k < len(out) && len(f) == 2 {
			out[k] = f[1]
			last = k
		}
	}
	if err != nil && last+1 < len(out) && (last < 0 || out[last] != "timeout") {
		txt := buf.String()
		if i := strings.Index(txt, "fatal error:"); i >= 0 {
			txt = txt[i:]
		} else if i := strings.Index(txt, "runtime:"); i >= 0 {
			txt = txt[i:]
		}
		if j := strings.IndexByte(txt, '\n'); j >= 0 {
			txt = txt[:j]
		}
		out[last+1] = "crash: " + txt
	}
	return out
}

// reproduced tells whether the native outcome confirms the violation.
func reproduced(v *Violation, out string) bool {
	switch {
	case strings.HasPrefix(out, "fail:"):
		return true
	case strings.HasPrefix(out, "panic:"):
		return true
	case strings.HasPrefix(out, "crash:"), out == "timeout":
		return v.Label == "deadlock" || v.Label == "fatal" || v.Label == "panic" || strings.Contains(v.Label, "alloc") || strings.Contains(v.Label, "termin")
	}
	return false
}
