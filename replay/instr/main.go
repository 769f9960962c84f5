// instr inserts vrand.Point("file:line") before and after the statements of
// the given Go files that can wait for another goroutine, keeping every line
// where it is.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

const pkg = "github.com/kitex-contrib/xds/zzverif/vrand"

type ins struct {
	off  int
	text string
}

// waits tells whether the statement itself (not a nested block or function
// literal) contains an operation that can wait.
func waits(s ast.Stmt) (token.Pos, bool) {
	var at token.Pos
	found := false
	mark := func(p token.Pos) {
		if !found {
			at, found = p, true
		}
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case nil:
			return false
		case *ast.FuncLit, *ast.BlockStmt, *ast.DeferStmt, *ast.GoStmt:
			return false
		case *ast.SelectStmt:
			mark(x.Pos())
			return false
		case *ast.SendStmt:
			mark(x.Arrow)
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				mark(x.Pos())
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				switch sel.Sel.Name {
				case "Lock", "RLock", "TryLock", "Wait", "Do":
					mark(x.Pos())
				}
			}
		}
		return true
	}
	ast.Inspect(s, visit)
	return at, found
}

func main() {
	for _, p := range os.Args[1:] {
		src, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		base := filepath.Base(p)
		var l []ins
		imported := false
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				switch s.(type) {
				case *ast.CommClause, *ast.CaseClause:
					continue
				}
				lab := s
				if ls, ok := s.(*ast.LabeledStmt); ok {
					lab = ls.Stmt
				}
				if g, ok := lab.(*ast.GoStmt); ok {
					l = append(l, ins{off(s.End()), fmt.Sprintf("; zzvrand.Point(%q)", fmt.Sprintf("%s:%d", base, fs.Position(g.Pos()).Line))})
				}
				at, ok := waits(lab)
				if !ok {
					continue
				}
				place := fmt.Sprintf("%s:%d", base, fs.Position(at).Line)
				if lab == s {
					l = append(l, ins{off(s.Pos()), fmt.Sprintf("zzvrand.Point(%q); ", place)})
				}
				switch lab.(type) {
				case *ast.ExprStmt, *ast.AssignStmt, *ast.SendStmt, *ast.DeclStmt:
					l = append(l, ins{off(s.End()), fmt.Sprintf("; zzvrand.Point(%q)", "after "+place)})
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
				if len(x.Body) > 0 {
					l = append(l, ins{off(x.Body[0].Pos()), fmt.Sprintf("zzvrand.Point(%q); ", fmt.Sprintf("after %s:%d", base, fs.Position(x.Pos()).Line))})
				}
			case *ast.GoStmt:
				// the goroutine's start
				if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
					l = append(l, ins{off(fl.Body.Lbrace) + 1, fmt.Sprintf(" zzvrand.Point(%q); ", fmt.Sprintf("start %s:%d", base, fs.Position(x.Pos()).Line))})
				} else {
					// go f(x): the arguments are not re-evaluated, so only
					// functions without arguments are wrapped
					if len(x.Call.Args) == 0 {
						l = append(l, ins{off(x.Call.Pos()), fmt.Sprintf("func() { zzvrand.Point(%q); ", fmt.Sprintf("start %s:%d", base, fs.Position(x.Pos()).Line))})
						l = append(l, ins{off(x.Call.End()), " }()"})
					}
				}
			}
			return true
		})
		if len(l) == 0 {
			continue
		}
		for _, im := range f.Imports {
			if im.Name != nil && im.Name.Name == "zzvrand" {
				imported = true
			}
		}
		if !imported {
			l = append(l, ins{off(f.Name.End()), fmt.Sprintf("; import zzvrand %q", pkg)})
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].off < l[j].off })
		var out []byte
		last := 0
		for _, i := range l {
			out = append(out, src[last:i.off]...)
			out = append(out, i.text...)
			last = i.off
		}
		out = append(out, src[last:]...)
		if err := os.WriteFile(p, out, 0o644); err != nil {
			panic(err)
		}
	}
}
