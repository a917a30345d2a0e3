// Command mutate lists small mutations of the Go files of a directory as JSON
// lines {file, off, len, new, kind, line}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Mut struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	Len  int    `json:"len"`
	New  string `json:"new"`
	Kind string `json:"kind"`
	Line int    `json:"line"`
	Old  string `json:"old"`
}

func main() {
	for _, dir := range os.Args[1:] {
		do(dir)
	}
}

func do(dir string) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	src := map[*ast.File][]byte{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			panic(err)
		}
		f, err := parser.ParseFile(fset, n, b, 0)
		if err != nil {
			panic(err)
		}
		files = append(files, f)
		src[f] = b
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Scopes: map[ast.Node]*types.Scope{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check(dir, fset, files, info)
	seen := map[string]bool{}
	enc := json.NewEncoder(os.Stdout)
	for _, f := range files {
		b := src[f]
		tf := fset.File(f.Pos())
		off := func(p token.Pos) int { return tf.Offset(p) }
		text := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
		emit := func(from, to token.Pos, new, kind string) {
			m := Mut{tf.Name(), off(from), off(to) - off(from), new, kind, tf.Line(from), string(b[off(from):off(to)])}
			k := fmt.Sprint(m.Off, m.Len, m.New)
			if m.Old == new || seen[m.File+k] {
				return
			}
			seen[m.File+k] = true
			enc.Encode(m)
		}
		simple := func(s ast.Stmt) bool {
			switch s := s.(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt:
				return true
			case *ast.AssignStmt:
				return s.Tok != token.DEFINE
			}
			return false
		}
		list := func(l []ast.Stmt) {
			for i, s := range l {
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.IfStmt:
					emit(s.Pos(), s.End(), "", "delete")
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 {
						emit(s.Pos(), s.End(), "", "delete")
					}
				}
				if i+1 < len(l) && simple(s) && simple(l[i+1]) {
					emit(s.Pos(), l[i+1].End(), text(l[i+1])+"\n"+text(s), "reorder")
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				alt := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
					token.LAND: {"||"}, token.LOR: {"&&"}}[n.Op]
				for _, a := range alt {
					emit(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), a, "operator")
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					emit(n.Pos(), n.End(), text(n.X), "half condition")
					emit(n.Pos(), n.End(), text(n.Y), "half condition")
				}
			case *ast.BasicLit:
				if n.Kind == token.INT && !strings.HasPrefix(n.Value, "0x") {
					emit(n.Pos(), n.End(), "("+n.Value+"+1)", "literal")
					emit(n.Pos(), n.End(), "("+n.Value+"-1)", "literal")
				} else if n.Kind == token.INT {
					emit(n.Pos(), n.End(), "("+n.Value+"+1)", "literal")
					emit(n.Pos(), n.End(), "("+n.Value+"/2)", "literal")
				}
			case *ast.IfStmt:
				emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "cond false")
				emit(n.Cond.Pos(), n.Cond.End(), "true || ("+text(n.Cond)+")", "cond true")
				if n.Else != nil {
					emit(n.Body.End(), n.Else.End(), "", "no else")
				}
			case *ast.ForStmt:
				if n.Cond != nil {
					emit(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "cond false")
				}
			case *ast.GoStmt:
				emit(n.Pos(), n.Call.Pos(), "", "no go")
			case *ast.DeferStmt:
				emit(n.Pos(), n.Call.Pos(), "", "no defer")
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					a, c := n.Args[i], n.Args[i+1]
					if ta, tc := info.Types[a].Type, info.Types[c].Type; ta != nil && tc != nil && types.Identical(ta, tc) {
						emit(a.Pos(), c.End(), text(c)+string(b[off(a.End()):off(c.Pos())])+text(a), "swap arguments")
					}
				}
				if fn, ok := n.Fun.(*ast.Ident); ok && (fn.Name == "min" || fn.Name == "max") {
					emit(fn.Pos(), fn.End(), map[string]string{"min": "max", "max": "min"}[fn.Name], "min/max")
				}
				if fn, ok := n.Fun.(*ast.Ident); ok && fn.Name == "make" && len(n.Args) == 2 {
					emit(n.Args[1].Pos(), n.Args[1].End(), text(n.Args[1])+"+1", "make size")
				}
				if fn, ok := n.Fun.(*ast.Ident); ok && fn.Name == "make" && len(n.Args) == 1 && strings.HasPrefix(text(n.Args[0]), "chan") {
					emit(n.Args[0].End(), n.Args[0].End(), ", 1", "chan buffer")
				}
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					emit(n.Pos(), n.X.Pos(), "", "no not")
				}
			case *ast.Ident:
				obj, ok := info.Uses[n].(*types.Var)
				if !ok || obj.IsField() || pkg == nil {
					if ok && obj.IsField() {
						break
					}
					if n.Name == "true" && info.Uses[n] == types.Universe.Lookup("true") {
						emit(n.Pos(), n.End(), "false", "bool")
					} else if n.Name == "false" && info.Uses[n] == types.Universe.Lookup("false") {
						emit(n.Pos(), n.End(), "true", "bool")
					}
					break
				}
				sc := pkg.Scope().Innermost(n.Pos())
				var cands []string
				for s := sc; s != nil && s != pkg.Scope() && s != types.Universe; s = s.Parent() {
					for _, name := range s.Names() {
						o, ok := s.Lookup(name).(*types.Var)
						if !ok || name == n.Name || name == "_" || o.Pos() >= n.Pos() || !types.Identical(o.Type(), obj.Type()) {
							continue
						}
						if _, o2 := sc.LookupParent(name, n.Pos()); o2 != o {
							continue
						}
						cands = append(cands, name)
					}
				}
				sort.Strings(cands)
				if len(cands) > 3 {
					cands = cands[:3]
				}
				for _, c := range cands {
					emit(n.Pos(), n.End(), c, "variable")
				}
			}
			return true
		})
	}
}
