// instrument writes, for every non-test .go file of a package directory, a copy with a
// call `verifY(n);` in front of each statement (same line, so line numbers are
// unchanged), plus a file that defines verifY, and prints a go build overlay.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	dir, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		panic(err)
	}
	sort.Strings(files)
	replace := map[string]string{}
	site := 0
	pkg := ""
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		pkg = af.Name.Name
		var at []int
		add := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				// the body of switch and select holds clauses, not statements
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(b.List)
			case *ast.CaseClause:
				add(b.Body)
			case *ast.CommClause:
				add(b.Body)
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		sort.Ints(at)
		var sb strings.Builder
		prev := 0
		for _, o := range at {
			sb.Write(src[prev:o])
			fmt.Fprintf(&sb, "verifY(%d);", site)
			site++
			prev = o
		}
		sb.Write(src[prev:])
		dst := filepath.Join(out, filepath.Base(f))
		if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
			panic(err)
		}
		replace[f] = dst
	}
	extra := filepath.Join(out, "zz_verif_noise.go")
	os.WriteFile(extra, []byte("package "+pkg+"\n\nimport \"tcpxverif/noise\"\n\nfunc verifY(n int) { noise.Y(n) }\n"), 0o644)
	replace[filepath.Join(dir, "zz_verif_noise.go")] = extra
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
	fmt.Println(site)
}
