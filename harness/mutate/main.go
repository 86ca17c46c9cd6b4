// mutate lists or applies single-point changes of a Go file. It is a development
// tool (see DESIGN.md, "Planted bugs and sensitivity"); no check uses it.
//
//	mutate FILE            one line per change: number, line, description
//	mutate FILE K          the file with change K
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type change struct {
	from, to int // byte offsets
	text     string
	line     int
	desc     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var cs []change
	add := func(a, b token.Pos, text, desc string) {
		cs = append(cs, change{off(a), off(b), text, fset.Position(a).Line, desc})
	}
	short := func(s string) string {
		s = string(bytes.ReplaceAll([]byte(s), []byte("\n"), []byte(" ")))
		if len(s) > 70 {
			s = s[:70]
		}
		return s
	}
	ops := map[token.Token][]token.Token{
		token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
		token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD}, token.REM: {token.QUO}, token.QUO: {token.MUL},
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.SendStmt, *ast.RangeStmt, *ast.ForStmt:
				add(s.Pos(), s.End(), "", "delete "+short(str(s)))
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), s.End(), "", "delete "+short(str(s)))
				} else if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
					// keep the variable, of its zero value
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s.Pos(), s.End(), "", "delete "+short(str(s)))
				}
				if x.Else != nil && x.Init == nil {
					add(x.Body.End(), x.Else.End(), "", "delete else of "+short(str(x.Cond)))
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					add(s.Pos(), s.End(), "", "delete return")
				}
			}
		}
		// swap neighbours
		for i := 0; i+1 < len(list); i++ {
			a, b := list[i], list[i+1]
			_, d1 := a.(*ast.DeclStmt)
			if d1 {
				continue
			}
			if _, ok := b.(*ast.ReturnStmt); ok {
				continue
			}
			if strings.HasPrefix(str(a), "if err") || strings.HasPrefix(str(b), "if err") {
				continue
			}
			add(a.Pos(), b.End(), str(b)+"\n"+str(a), "swap "+short(str(a))+" | "+short(str(b)))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if x.List != nil {
				for i, e := range x.List {
					if len(x.List) > 1 {
						if i+1 < len(x.List) {
							add(e.Pos(), x.List[i+1].Pos(), "", "case without "+str(e))
						} else {
							add(x.List[i-1].End(), e.End(), "", "case without "+str(e))
						}
					}
				}
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+str(x.Cond)+")", "negate "+short(str(x.Cond)))
			add(x.Cond.Pos(), x.Cond.End(), "("+str(x.Cond)+") && false", "never "+short(str(x.Cond)))
			add(x.Cond.Pos(), x.Cond.End(), "("+str(x.Cond)+") || true", "always "+short(str(x.Cond)))
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o.String(), "operator "+o.String()+" in "+short(str(x)))
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), "("+str(x.X)+")", "only left of "+short(str(x)))
				add(x.Pos(), x.End(), "("+str(x.Y)+")", "only right of "+short(str(x)))
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", "drop ! in "+short(str(x)))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				add(x.Pos(), x.End(), "("+x.Value+"+1)", "literal "+x.Value+"+1")
				if x.Value != "0" {
					add(x.Pos(), x.End(), "("+x.Value+"-1)", "literal "+x.Value+"-1")
				}
			case token.STRING:
				if v, err := strconv.Unquote(x.Value); err == nil && v != "" {
					add(x.Pos(), x.End(), `""`, "literal "+short(x.Value)+" empty")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true -> false")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false -> true")
			}
		case *ast.SliceExpr:
			if x.High != nil && x.Low != nil {
				add(x.High.Pos(), x.High.End(), "", "no upper bound in "+short(str(x)))
			}
		case *ast.CallExpr:
			if f := str(x.Fun); f == "errors.New" || f == "fmt.Errorf" || strings.HasPrefix(f, "log.") || f == "fmt.Printf" {
				return false
			}
			// swap two neighbouring arguments (the compiler refuses most)
			for i := 0; i+1 < len(x.Args); i++ {
				a, b := x.Args[i], x.Args[i+1]
				add(a.Pos(), b.End(), str(b)+", "+str(a), "arguments swapped in "+short(str(x)))
			}
			if id, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 1 {
				switch id.Sel.Name {
				case "TrimSpace", "TrimLeft", "ToLower", "Clone", "EscapeString":
					add(x.Pos(), x.End(), str(x.Args[0]), "without "+id.Sel.Name+" in "+short(str(x)))
				}
			}
		}
		return true
	})
	if len(os.Args) == 2 {
		for i, c := range cs {
			fmt.Printf("%d\t%d\t%s\n", i, c.line, c.desc)
		}
		return
	}
	k, err := strconv.Atoi(os.Args[2])
	if err != nil {
		panic(err)
	}
	c := cs[k]
	os.Stdout.Write(src[:c.from])
	os.Stdout.WriteString(c.text)
	os.Stdout.Write(src[c.to:])
}
