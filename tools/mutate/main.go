// mutate lists and applies small syntactic changes ("mutants") to Go files, to find out which checks are blind to what.
//
//	mutate list FILE...          one line per mutant: FILE:OFFSET:KIND:INDEX
//	mutate apply FILE INDEX      rewrites FILE in place with that mutant and prints what it changed
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	pos    token.Pos
	end    token.Pos
	kind   string
	fn     string
	change string // replacement for [pos,end)
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"*"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"}, token.SHL: {">>"}, token.SHR: {"<<"},
}

func collect(fset *token.FileSet, f *ast.File, src []byte) (ms []mutant) {
	txt := func(a, b token.Pos) string { return string(src[fset.Position(a).Offset:fset.Position(b).Offset]) }
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if name == "init" || strings.HasPrefix(name, "Test") {
			continue
		}
		add := func(pos, end token.Pos, kind, change string) {
			ms = append(ms, mutant{pos, end, kind, name, change})
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					if n.Op == token.ADD {
						if bl, ok := n.X.(*ast.BasicLit); ok && bl.Kind == token.STRING {
							continue
						}
						if bl, ok := n.Y.(*ast.BasicLit); ok && bl.Kind == token.STRING {
							continue
						}
					}
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), "op", s)
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					add(n.Pos(), n.End(), "lit", "("+n.Value+"+1)")
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "bool", "false")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "bool", "true")
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "neg", "!("+txt(n.Cond.Pos(), n.Cond.End())+")")
				add(n.Cond.Pos(), n.Cond.End(), "never", "("+txt(n.Cond.Pos(), n.Cond.End())+") && false")
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.Pos()+1, "not", "")
				}
			case *ast.BlockStmt:
				for _, s := range n.List {
					del(s, add, txt)
				}
				for i := 0; i+1 < len(n.List); i++ {
					a, b := n.List[i], n.List[i+1]
					if simple(a) && simple(b) {
						add(a.Pos(), b.End(), "swap", txt(b.Pos(), b.End())+"\n"+txt(a.Pos(), a.End()))
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					del(s, add, txt)
				}
			case *ast.CallExpr: // two neighbouring arguments changed over
				for i := 0; i+1 < len(n.Args); i++ {
					a, b := n.Args[i], n.Args[i+1]
					add(a.Pos(), b.End(), "args", txt(b.Pos(), b.End())+","+txt(a.Pos(), a.End()))
				}
			}
			return true
		})
	}
	return
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}

func del(s ast.Stmt, add func(pos, end token.Pos, kind, change string), txt func(a, b token.Pos) string) {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt:
		add(s.Pos(), s.End(), "del", "")
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "del", strings.Repeat("_, ", len(s.Rhs)-1)+"_ = "+txt(s.Rhs[0].Pos(), s.Rhs[len(s.Rhs)-1].End()))
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			add(s.Pos(), s.End(), "del", "")
		}
	case *ast.BranchStmt:
		if s.Tok == token.BREAK {
			add(s.Pos(), s.End(), "branch", "continue")
		} else if s.Tok == token.CONTINUE {
			add(s.Pos(), s.End(), "branch", "break")
		}
	}
}

func load(file string) (*token.FileSet, *ast.File, []byte) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	return fset, f, src
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, file := range os.Args[2:] {
			fset, f, src := load(file)
			for i, m := range collect(fset, f, src) {
				fmt.Printf("%s:%d:%s:%d\n", file, fset.Position(m.pos).Line, m.kind, i)
			}
		}
	case "apply":
		fset, f, src := load(os.Args[2])
		i, _ := strconv.Atoi(os.Args[3])
		m := collect(fset, f, src)[i]
		a, b := fset.Position(m.pos).Offset, fset.Position(m.end).Offset
		out := string(src[:a]) + m.change + string(src[b:])
		if err := os.WriteFile(os.Args[2], []byte(out), 0o644); err != nil {
			panic(err)
		}
		fmt.Printf("%s:%d %s in %s: %q -> %q\n", os.Args[2], fset.Position(m.pos).Line, m.kind, m.fn, src[a:b], m.change)
	}
}
