package sym

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// HFile is one harness source file.
type HFile struct {
	Path string // in /verif
	Base string // name in the overlay, without .go
	Src  []byte
}

// HPkg is the part of a harness that lives in one package of the repository.
type HPkg struct {
	Dir     string // relative to the repository, "." for the root
	Name    string // package name
	Files   []HFile
	Entries []string
	MaxSec  map[string]float64
	Stubs   map[string]string // full name of a function -> harness function executed in its place
	Pkg     *packages.Package
	SSA     *ssa.Package
}

type Harness struct {
	ID   string
	Pkgs []*HPkg
	Prog *ssa.Program
}

var pkgDir = regexp.MustCompile(`(?m)^//verif:pkg +(\S+)`)
var maxDir = regexp.MustCompile(`^//verif:max +(\d+)`)
var stubDir = regexp.MustCompile(`^//verif:stub +(\S+)`)
var pkgClause = regexp.MustCompile(`(?m)^package +\w+`)

func ReadHarness(verif, repo, id string) (*Harness, error) {
	h := &Harness{ID: id}
	byDir := map[string]*HPkg{}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", id, "*.go"))
	if len(fs) == 0 {
		return nil, fmt.Errorf("no harness for %s", id)
	}
	sort.Strings(fs)
	add := func(p string, shared bool) error {
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		mm := pkgDir.FindSubmatch(src)
		if mm == nil {
			return fmt.Errorf("%s: no //verif:pkg line", p)
		}
		dir := string(mm[1])
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return err
		}
		hp := byDir[dir]
		if hp == nil {
			if shared {
				return nil
			}
			hp = &HPkg{Dir: dir, Name: f.Name.Name, MaxSec: map[string]float64{}, Stubs: map[string]string{}}
			byDir[dir] = hp
			h.Pkgs = append(h.Pkgs, hp)
		}
		b := strings.TrimSuffix(filepath.Base(p), ".go")
		if shared {
			b = "common_" + b
		}
		hp.Files = append(hp.Files, HFile{Path: p, Base: "zz_verif_" + b, Src: src})
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if mm := stubDir.FindStringSubmatch(c.Text); mm != nil {
						hp.Stubs[mm[1]] = fd.Name.Name
					}
				}
			}
			if !strings.HasPrefix(fd.Name.Name, "VH_") {
				continue
			}
			hp.Entries = append(hp.Entries, fd.Name.Name)
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					if mm := maxDir.FindStringSubmatch(c.Text); mm != nil {
						var s float64
						fmt.Sscan(mm[1], &s)
						hp.MaxSec[fd.Name.Name] = s
					}
				}
			}
		}
		return nil
	}
	for _, p := range fs {
		if err := add(p, false); err != nil {
			return nil, err
		}
	}
	cs, _ := filepath.Glob(filepath.Join(verif, "harness", "common", "*", "*.go"))
	sort.Strings(cs)
	for _, p := range cs {
		if filepath.Base(filepath.Dir(p)) == "rt" {
			continue
		}
		if err := add(p, true); err != nil {
			return nil, err
		}
	}
	rt, err := os.ReadFile(filepath.Join(verif, "harness", "common", "rt", "rt.go"))
	if err != nil {
		return nil, err
	}
	for _, hp := range h.Pkgs {
		src := pkgClause.ReplaceAll(rt, []byte("package "+hp.Name))
		hp.Files = append(hp.Files, HFile{Base: "zz_verif_rt", Src: src})
	}
	return h, nil
}

// Load type-checks the repository with the harness laid over it and builds
// the intermediate representation.
func (h *Harness) Load(repo string) error {
	ov := map[string][]byte{}
	var pats []string
	for _, hp := range h.Pkgs {
		for _, f := range hp.Files {
			ov[filepath.Join(repo, hp.Dir, f.Base+".go")] = f.Src
		}
		p := "./" + hp.Dir
		if hp.Dir == "." {
			p = "."
		}
		pats = append(pats, p)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Overlay: ov,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"}, Env: append(os.Environ(), "CGO_ENABLED=1")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	h.Prog = prog
	for i, p := range ps {
		for _, hp := range h.Pkgs {
			d := filepath.Join(repo, hp.Dir)
			if len(p.GoFiles) > 0 && filepath.Dir(p.GoFiles[0]) == filepath.Clean(d) {
				hp.Pkg, hp.SSA = p, sp[i]
			}
		}
	}
	for _, hp := range h.Pkgs {
		if hp.SSA == nil {
			return fmt.Errorf("package %s not loaded", hp.Dir)
		}
	}
	return nil
}

// InitOrder lists the repository's packages below the harness, dependencies
// first.
func (h *Harness) InitOrder(module string) []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var walk func(p *packages.Package)
	walk = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(p.Imports[k])
		}
		if strings.HasPrefix(p.PkgPath, module) {
			if sp := h.Prog.Package(p.Types); sp != nil {
				out = append(out, sp)
			}
		}
	}
	for _, hp := range h.Pkgs {
		walk(hp.Pkg)
	}
	return out
}
