// instr writes instrumented copies of the repository's non-test Go files and an
// overlay file for the go command. It is textual insertion at AST positions, so
// the copies differ from the originals by the inserted text only.
//
//	instr -repo /repo -out DIR -vrt DIR
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "github.com/scouter-contrib/scouter-agent-golang"

type edit struct {
	off, del int
	ins      string
}

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}
var randFuncs = map[string]bool{"Intn": true, "Int31n": true, "Int63n": true, "Float64": true, "Float32": true}
var syncTypes = map[string]bool{"Mutex": true, "RWMutex": true}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	vrt := flag.String("vrt", "", "")
	yields := flag.Bool("yields", true, "")
	flag.Parse()
	repl := map[string]string{}
	n := 0
	err := filepath.Walk(filepath.Join(*repo, "scouterx"), func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		res, err := instrument(p, src, *yields)
		if err != nil {
			return fmt.Errorf("%s: %v", p, err)
		}
		rel, _ := filepath.Rel(*repo, p)
		dst := filepath.Join(*out, "src", rel)
		os.MkdirAll(filepath.Dir(dst), 0755)
		if err := os.WriteFile(dst, res, 0644); err != nil {
			return err
		}
		repl[p] = dst
		n++
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
	for _, f := range []string{"vrt.go", "sched.go"} {
		repl[filepath.Join(*repo, "scouterx/zverif/vrt", f)] = filepath.Join(*vrt, f)
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644)
	fmt.Println("instrumented", n, "files")
}

func instrument(name string, src []byte, yields bool) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []edit
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		local := path[strings.LastIndexByte(path, '/')+1:]
		if im.Name != nil {
			local = im.Name.Name
		}
		imports[local] = path
	}
	keep := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok || id.Obj != nil {
				return true
			}
			hit := false
			switch imports[id.Name] {
			case "time":
				hit = timeFuncs[x.Sel.Name]
			case "math/rand":
				hit = randFuncs[x.Sel.Name]
			case "sync":
				hit = syncTypes[x.Sel.Name]
			}
			if hit {
				edits = append(edits, edit{off(id.Pos()), len(id.Name), "vrt"})
				keep[id.Name] = true
			}
		}
		return true
	})
	if yields {
		hasCall := func(e ast.Expr) bool {
			c := false
			ast.Inspect(e, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
					c = true
				}
				return !c
			})
			return c
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		// split X++ and X op= e on shared places into a read and a write
		rmw := func(st ast.Stmt) {
			switch x := st.(type) {
			case *ast.IncDecStmt:
				if _, ok := x.X.(*ast.Ident); ok || hasCall(x.X) {
					return
				}
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				l := text(x.X)
				edits = append(edits, edit{off(x.Pos()), off(x.End()) - off(x.Pos()), "{ vrtT := " + l + "; vrt.Y(); " + l + " = vrtT " + op + " 1 }"})
			case *ast.AssignStmt:
				if len(x.Lhs) != 1 || x.Tok == token.ASSIGN || x.Tok == token.DEFINE || hasCall(x.Lhs[0]) || hasCall(x.Rhs[0]) {
					return
				}
				if _, ok := x.Lhs[0].(*ast.Ident); ok {
					return
				}
				if x.Tok == token.SHL_ASSIGN || x.Tok == token.SHR_ASSIGN {
					return
				}
				tok := strings.TrimSuffix(x.Tok.String(), "=")
				l := text(x.Lhs[0])
				edits = append(edits, edit{off(x.Pos()), off(x.End()) - off(x.Pos()), "{ vrtT := " + l + "; vrt.Y(); " + l + " = vrtT " + tok + " (" + text(x.Rhs[0]) + ") }"})
			}
		}
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				edits = append(edits, edit{off(s.Pos()), 0, "vrt.Y(); "})
				rmw(s)
			}
		}
		// only inside functions; case clauses of type switches and selects included
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// a switch or select body holds clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	edits = append(edits, edit{off(f.Name.End()), 0, `; import vrt "` + mod + `/scouterx/zverif/vrt"`})
	tail := "\nvar _ = vrt.Used\n"
	for local := range keep {
		switch imports[local] {
		case "time":
			tail += "var _ = " + local + ".Second\n"
		case "math/rand":
			tail += "var _ = " + local + ".Int\n"
		case "sync":
			tail += "var _ = " + local + ".NewCond\n"
		}
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].del < edits[j].del
	})
	var sb strings.Builder
	at := 0
	for _, e := range edits {
		sb.Write(src[at:e.off])
		sb.WriteString(e.ins)
		at = e.off + e.del
	}
	sb.Write(src[at:])
	sb.WriteString(tail)
	return []byte(sb.String()), nil
}
