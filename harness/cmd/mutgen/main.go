// Command mutgen lists small changes of a Go file as JSON, for tools/automut.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	With  string `json:"with"`
	Kind  string `json:"kind"`
}

// simple statements are exchanged with each other: an order that may matter.
func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.CommClause, *ast.CaseClause, *ast.DeferStmt, *ast.ReturnStmt, *ast.BranchStmt, *ast.DeclStmt:
		return false
	}
	return true
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var out []mutant
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(n ast.Node, with, kind string) {
		out = append(out, mutant{fs.Position(n.Pos()).Line, off(n.Pos()), off(n.End()), with, kind})
	}
	span := func(a, b token.Pos, with, kind string) {
		out = append(out, mutant{fs.Position(a).Line, off(a), off(b), with, kind})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
		token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	stmts := func(list []ast.Stmt) {
		for i, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.DeferStmt, *ast.GoStmt, *ast.IncDecStmt, *ast.SendStmt:
				add(s, "", "delete")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s, "", "delete")
				}
			case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt:
				add(s, "", "delete")
			case *ast.BranchStmt:
				add(s, "", "delete")
				if x.Label == nil && x.Tok == token.CONTINUE {
					add(s, "break", "branch")
				}
				if x.Label == nil && x.Tok == token.BREAK {
					add(s, "continue", "branch")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add(s, "", "delete")
				}
			}
			if x, ok := s.(*ast.DeferStmt); ok {
				add(s, text(x.Call), "undefer")
			}
			if x, ok := s.(*ast.GoStmt); ok {
				add(s, text(x.Call), "ungo")
			}
			if i+1 < len(list) {
				n := list[i+1]
				if !simple(s) || !simple(n) {
					continue
				}
				span(s.Pos(), n.End(), text(n)+"\n"+text(s), "exchange")
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.IfStmt:
			span(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			span(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			span(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
			if x.Else != nil {
				span(x.Body.End(), x.Else.End(), "", "no else")
			}
		case *ast.BinaryExpr:
			for _, w := range swap[x.Op] {
				span(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, "operator")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x, fmt.Sprint(v+1), "constant")
					if v > 0 {
						add(x, fmt.Sprint(v-1), "constant")
					}
				}
			}
		case *ast.Ident:
			switch x.Name {
			case "true":
				add(x, "false", "constant")
			case "false":
				add(x, "true", "constant")
			case "RLock", "RUnlock":
			case "Lock":
				add(x, "RLock", "weaker lock")
			case "Unlock":
			}
		case *ast.CallExpr:
			if len(x.Args) == 2 {
				span(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swapped arguments")
			}
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 2 {
				span(x.Args[0].End(), x.Args[1].End(), "", "no size")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x.X), "drop not")
			}
		case *ast.ReturnStmt:
			for i, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" && i == len(x.Results)-1 {
					add(r, "nil", "return nil")
				}
			}
		}
		return true
	})
	// whole functions lose their locking
	ast.Inspect(f, func(n ast.Node) bool {
		fd, ok := n.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			return true
		}
		var spans [][2]int
		reader := false
		ast.Inspect(fd.Body, func(m ast.Node) bool {
			var c *ast.CallExpr
			switch y := m.(type) {
			case *ast.ExprStmt:
				c, _ = y.X.(*ast.CallExpr)
			case *ast.DeferStmt:
				c = y.Call
			}
			if c != nil {
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) == 0 {
					switch s.Sel.Name {
					case "Lock", "Unlock", "RLock", "RUnlock":
						spans = append(spans, [2]int{off(m.Pos()), off(m.End())})
						if s.Sel.Name == "RLock" {
							reader = true
						}
					}
				}
			}
			return true
		})
		_ = reader
		if len(spans) > 0 {
			a, b := off(fd.Body.Pos()), off(fd.Body.End())
			body, at := "", a
			for _, s := range spans {
				body += string(src[at:s[0]])
				at = s[1]
			}
			body += string(src[at:b])
			out = append(out, mutant{fs.Position(fd.Pos()).Line, a, b, body, "no locking in " + fd.Name.Name})
		}
		return true
	})
	json.NewEncoder(os.Stdout).Encode(out)
}
