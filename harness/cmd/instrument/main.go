// Command instrument writes copies of the non-test Go files of a module, with a
// call to vyield.P planted before every statement, and the -overlay file that
// makes the go command use them. Line numbers are unchanged. It only looks at
// syntax, so it follows any change of the code.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type ins struct {
	off  int
	text string
}

func main() {
	root, out := os.Args[1], os.Args[2]
	as := root // where the build looks for the files
	if len(os.Args) > 3 {
		as = os.Args[3]
	}
	replace := map[string]string{}
	var sites []string
	err := filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			if n := info.Name(); p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		var list []ins
		plant := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				if _, empty := s.(*ast.EmptyStmt); empty {
					continue
				}
				pos := fset.Position(s.Pos())
				list = append(list, ins{pos.Offset, fmt.Sprintf("_vy.P(%d);", len(sites))})
				sites = append(sites, fmt.Sprintf("%s:%d", rel, pos.Line))
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				// the "block" of a switch or select holds clauses, not statements
				if len(n.List) > 0 {
					switch n.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				plant(n.List)
			case *ast.CaseClause:
				plant(n.Body)
			case *ast.CommClause:
				plant(n.Body)
			}
			return true
		})
		if len(list) == 0 {
			return nil
		}
		list = append(list, ins{fset.Position(f.Name.End()).Offset, ";import _vy \"axverif/vyield\""})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b strings.Builder
		last := 0
		for _, x := range list {
			b.Write(src[last:x.off])
			b.WriteString(x.text)
			last = x.off
		}
		b.Write(src[last:])
		dst := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(as, rel)] = dst
		return nil
	})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	write := func(name string, v any) {
		data, err := json.Marshal(v)
		if err == nil {
			err = os.WriteFile(filepath.Join(out, name), data, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	}
	write("overlay.json", map[string]any{"Replace": replace})
	write("sites.json", sites)
	if len(sites) > 8192 {
		fmt.Fprintln(os.Stderr, "too many statements")
		os.Exit(1)
	}
}
