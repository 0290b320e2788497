// Command mutate lists or applies small syntactic changes to Go files. It is
// used to look for behaviour the checks do not see (see DESIGN.md); no check
// depends on it.
//
//	mutate list FILE...      one line per change: INDEX FILE:LINE description
//	mutate apply N FILE...   writes the change to its file
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	file       string
	line       int
	from, to   int
	text, desc string
}

func main() {
	var files []string
	n := -1
	switch os.Args[1] {
	case "list":
		files = os.Args[2:]
	case "apply":
		n, _ = strconv.Atoi(os.Args[2])
		files = os.Args[3:]
	}
	var ms []mut
	for _, f := range files {
		ms = append(ms, mutants(f)...)
	}
	if n < 0 {
		for i, m := range ms {
			fmt.Printf("%d %s:%d %s\n", i, m.file, m.line, m.desc)
		}
		return
	}
	m := ms[n]
	b, _ := os.ReadFile(m.file)
	s := string(b[:m.from]) + m.text + string(b[m.to:])
	os.WriteFile(m.file, []byte(s), 0o644)
}

func mutants(file string) (out []mut) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(a, b token.Pos, text, desc string) {
		old := strings.Join(strings.Fields(string(src[off(a):off(b)])), " ")
		if len(old) > 70 {
			old = old[:70] + "..."
		}
		out = append(out, mut{file, fset.Position(a).Line, off(a), off(b), text, desc + ": " + old})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&"}
			if s, ok := swap[x.Op]; ok {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, "operator of "+txt(x))
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always")
			add(x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never")
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.X.Pos(), "", "negation dropped")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "constant")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "constant")
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				v, err := strconv.Atoi(x.Value)
				if err == nil {
					add(x.Pos(), x.End(), strconv.Itoa(v+1), "constant")
				}
			case token.STRING:
				if len(x.Value) > 2 && x.Value[0] == '"' {
					add(x.Pos(), x.End(), `""`, "emptied")
				}
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				stmt(s, add)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				stmt(s, add)
			}
		}
		return true
	})
	return
}

func stmt(s ast.Stmt, add func(a, b token.Pos, text, desc string)) {
	switch y := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "deleted")
	case *ast.AssignStmt:
		if y.Tok != token.DEFINE {
			add(s.Pos(), s.End(), "", "deleted")
		}
	case *ast.BranchStmt:
		add(s.Pos(), s.End(), "", "deleted")
	case *ast.ReturnStmt:
		if len(y.Results) == 0 {
			add(s.Pos(), s.End(), "", "deleted")
		}
	}
}
