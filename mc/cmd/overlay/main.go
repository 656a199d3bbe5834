// Command overlay writes a go build overlay for the repository under test:
// imports of random and clock packages are replaced with shims the harness
// owns, and scheduling points are inserted. The repository itself is not
// touched.
//
//	overlay REPO OUTDIR feature...   (features: rand time sync sched)
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

// site numbers the scheduling points.
var site int

func main() {
	repo, out := os.Args[1], os.Args[2]
	feat := map[string]bool{}
	for _, f := range os.Args[3:] {
		feat[f] = true
	}
	repl := map[string][2]string{}
	if feat["rand"] {
		repl["math/rand"] = [2]string{"rand", "nnverif/seam/mrand"}
		repl["golang.org/x/exp/rand"] = [2]string{"rand", "nnverif/seam/xrand"}
	}
	if feat["time"] {
		repl["time"] = [2]string{"time", "nnverif/seam/vtime"}
	}
	if feat["os"] {
		repl["os"] = [2]string{"os", "nnverif/seam/vos"}
	}
	if feat["sync"] {
		repl["sync"] = [2]string{"sync", "nnverif/seam/vsync"}
	}
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	replace := map[string]string{}
	for _, path := range files {
		if strings.HasSuffix(path, "_test.go") {
			continue
		}
		src, err := os.ReadFile(path)
		if err != nil {
			die(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			die(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		var es []edit
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			r, ok := repl[p]
			if !ok {
				continue
			}
			name := r[0] + " "
			if im.Name != nil {
				name = ""
			}
			es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), name + strconv.Quote(r[1])})
		}
		if feat["sched"] && f.Name.Name != "main" {
			n := 0
			var list func(l []ast.Stmt, kind int)
			list = func(l []ast.Stmt, kind int) {
				for i, s := range l {
					k := 2
					if i == 0 {
						k = kind
					}
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					es = append(es, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("vsched.PS(%d,%d); ", k, site)})
					n++
					site++
				}
			}
			ast.Inspect(f, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncDecl:
					if x.Name.Name == "init" && x.Recv == nil {
						return false
					}
					if x.Body != nil {
						list(x.Body.List, 0)
						inner(x.Body, list)
					}
					return false
				case *ast.GenDecl:
					return false
				}
				return true
			})
			if n > 0 {
				es = append(es, edit{off(f.Name.End()), off(f.Name.End()), `; import "nnverif/seam/vsched"`})
			}
		}
		if len(es) == 0 {
			continue
		}
		sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
		var b strings.Builder
		at := 0
		for _, e := range es {
			b.Write(src[at:e.off])
			b.WriteString(e.text)
			at = e.end
		}
		b.Write(src[at:])
		dst := filepath.Join(out, filepath.Base(path))
		if err := os.WriteFile(dst, []byte(b.String()), 0o666); err != nil {
			die(err)
		}
		abs, _ := filepath.Abs(path)
		replace[abs] = dst
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o666); err != nil {
		die(err)
	}
}

// inner visits the statement lists nested in a function body.
func inner(body *ast.BlockStmt, list func([]ast.Stmt, int)) {
	ast.Inspect(body, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.ForStmt:
			list(x.Body.List, 1)
		case *ast.RangeStmt:
			list(x.Body.List, 1)
		case *ast.IfStmt:
			list(x.Body.List, 2)
			if b, ok := x.Else.(*ast.BlockStmt); ok {
				list(b.List, 2)
			}
		case *ast.CaseClause:
			list(x.Body, 2)
		case *ast.CommClause:
			list(x.Body, 2)
		case *ast.FuncLit:
			list(x.Body.List, 0)
		case *ast.BlockStmt:
		}
		return true
	})
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "overlay:", err)
	os.Exit(1)
}
