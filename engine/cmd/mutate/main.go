// Command mutate lists small changes of a source file, one JSON object per
// line: {file, func, line, what, off, end, new}. It serves to find out what
// the checks do not notice; no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Func string `json:"func"`
	Line int    `json:"line"`
	What string `json:"what"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				r := text(fd.Recv.List[0].Type.Pos(), fd.Recv.List[0].Type.End())
				if r[0] == '*' {
					name = "(" + "*" + f.Name.Name + "." + r[1:] + ")." + name
				} else {
					name = "(" + f.Name.Name + "." + r + ")." + name
				}
			} else {
				name = f.Name.Name + "." + name
			}
			add := func(a, b token.Pos, nw, what string) {
				enc.Encode(mut{fn, name, fs.Position(a).Line, what, off(a), off(b), nw})
			}
			nerr := 0
			if fd.Type.Results != nil {
				l := fd.Type.Results.List
				if id, ok := l[len(l)-1].Type.(*ast.Ident); ok && id.Name == "error" {
					nerr = 1
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					var alt []token.Token
					switch x.Op {
					case token.LSS:
						alt = []token.Token{token.LEQ}
					case token.LEQ:
						alt = []token.Token{token.LSS}
					case token.GTR:
						alt = []token.Token{token.GEQ}
					case token.GEQ:
						alt = []token.Token{token.GTR}
					case token.EQL:
						alt = []token.Token{token.NEQ}
					case token.NEQ:
						alt = []token.Token{token.EQL}
					case token.ADD:
						alt = []token.Token{token.SUB}
					case token.SUB:
						alt = []token.Token{token.ADD}
					case token.SHL:
						alt = []token.Token{token.SHR}
					case token.SHR:
						alt = []token.Token{token.SHL}
					case token.AND:
						alt = []token.Token{token.OR}
					case token.OR:
						alt = []token.Token{token.AND, token.XOR}
					case token.MUL:
						alt = []token.Token{token.ADD}
					case token.QUO:
						alt = []token.Token{token.MUL}
					case token.LAND:
						add(x.Pos(), x.End(), text(x.X.Pos(), x.X.End()), "drop && "+text(x.Y.Pos(), x.Y.End()))
						add(x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()), "drop "+text(x.X.Pos(), x.X.End())+" &&")
					case token.LOR:
						add(x.Pos(), x.End(), text(x.X.Pos(), x.X.End()), "drop || "+text(x.Y.Pos(), x.Y.End()))
						add(x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()), "drop "+text(x.X.Pos(), x.X.End())+" ||")
					}
					for _, a := range alt {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a.String(), text(x.Pos(), x.End())+": "+x.Op.String()+" -> "+a.String())
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseUint(x.Value, 0, 64)
						if err == nil {
							add(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								add(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
				case *ast.IfStmt:
					c := text(x.Cond.Pos(), x.Cond.End())
					add(x.Cond.Pos(), x.Cond.End(), "("+c+") && false", "if "+c+" -> never")
					if !strings.Contains(c, "nil") {
						add(x.Cond.Pos(), x.Cond.End(), "("+c+") || true", "if "+c+" -> always")
					}
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "{}", "delete "+text(x.Pos(), x.End()))
				case *ast.DeferStmt:
					return false
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "{}", "delete "+text(x.Pos(), x.End()))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := ""
						for i, l := range x.Lhs {
							_ = i
							if id, ok := l.(*ast.Ident); ok && id.Name != "_" {
								s += "_ = " + id.Name + "; "
							}
						}
						for _, r := range x.Rhs {
							s += "_ = " + text(r.Pos(), r.End()) + "; "
						}
						if len(x.Lhs) == len(x.Rhs) {
							add(x.Pos(), x.End(), "{"+s+"}", "delete "+text(x.Pos(), x.End()))
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						if x.Tok == token.CONTINUE {
							add(x.Pos(), x.End(), "break", "continue -> break")
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						l := x.Results[len(x.Results)-1]
						if id, ok := l.(*ast.Ident); nerr == 1 && !(ok && id.Name == "nil") && len(x.Results) == len(fd.Type.Results.List) {
							add(l.Pos(), l.End(), "nil", "return nil for "+text(l.Pos(), l.End()))
						}
						for _, r := range x.Results {
							if id, ok := r.(*ast.Ident); ok && id.Name == "true" {
								add(r.Pos(), r.End(), "false", "return false")
							} else if ok && id.Name == "false" {
								add(r.Pos(), r.End(), "true", "return true")
							}
						}
					}
				}
				return true
			})
		}
	}
}
