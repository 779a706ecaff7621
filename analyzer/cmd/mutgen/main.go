// mutgen lists single-point changes of a Go module (development aid: which
// changes that still compile do the checks miss?).
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	ID         int
	File       string
	Start, End int
	Repl       string
	Func, What string
}

func main() {
	dir := os.Args[1]
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	var out []mutant
	for _, p := range pk {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			src, _ := os.ReadFile(name)
			off := func(p0 token.Pos) int { return p.Fset.Position(p0).Offset }
			text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
			rel := strings.TrimPrefix(name, dir+"/")
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				fn := fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if ix, ok := t.(*ast.IndexExpr); ok {
						t = ix.X
					}
					fn = text(t) + "." + fn
				}
				fn = p.Name + "." + fn
				add := func(a, b token.Pos, repl, what string) {
					out = append(out, mutant{File: rel, Start: off(a), End: off(b), Repl: repl, Func: fn, What: fmt.Sprintf("%s:%d %s", rel, p.Fset.Position(a).Line, what)})
				}
				// locals per type
				byType := map[string][]string{}
				ast.Inspect(fd, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if v, ok := p.TypesInfo.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
							k := v.Type().String()
							dup := false
							for _, x := range byType[k] {
								dup = dup || x == id.Name
							}
							if !dup {
								byType[k] = append(byType[k], id.Name)
							}
						}
					}
					return true
				})
				lhs := map[ast.Node]bool{}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch n := n.(type) {
					case *ast.AssignStmt:
						for _, l := range n.Lhs {
							lhs[l] = true
						}
						if n.Tok != token.DEFINE {
							add(n.Pos(), n.End(), "", "delete "+text(n))
							if n.Tok == token.ADD_ASSIGN {
								add(n.TokPos, n.TokPos+2, "=", "+= -> = in "+text(n))
								add(n.TokPos, n.TokPos+2, "-=", "+= -> -= in "+text(n))
							}
						}
					case *ast.ExprStmt:
						add(n.Pos(), n.End(), "", "delete "+text(n))
					case *ast.IncDecStmt:
						add(n.Pos(), n.End(), "", "delete "+text(n))
					case *ast.IfStmt:
						add(n.Cond.Pos(), n.Cond.End(), "!("+text(n.Cond)+")", "negate "+text(n.Cond))
						add(n.Cond.Pos(), n.Cond.End(), "false && ("+text(n.Cond)+")", "never "+text(n.Cond))
					case *ast.ReturnStmt:
						if k := len(n.Results); k > 0 {
							if id, ok := n.Results[k-1].(*ast.Ident); ok && id.Name == "err" {
								add(id.Pos(), id.End(), "nil", "return nil for err")
							}
						}
					case *ast.BinaryExpr:
						m := map[token.Token]string{token.ADD: "-", token.SUB: "+", token.MUL: "+", token.QUO: "*", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.REM: "/"}
						if r, ok := m[n.Op]; ok {
							add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), r, n.Op.String()+" -> "+r+" in "+text(n))
						}
					case *ast.BasicLit:
						if n.Kind == token.INT {
							add(n.Pos(), n.End(), n.Value+"+1", n.Value+" -> +1")
							if n.Value != "0" {
								add(n.Pos(), n.End(), n.Value+"-1", n.Value+" -> -1")
							}
						}
					case *ast.CallExpr:
						for i := 0; i+1 < len(n.Args); i++ {
							a, b := p.TypesInfo.TypeOf(n.Args[i]), p.TypesInfo.TypeOf(n.Args[i+1])
							if a != nil && b != nil && types.Identical(a, b) && text(n.Args[i]) != text(n.Args[i+1]) {
								add(n.Args[i].Pos(), n.Args[i+1].End(), text(n.Args[i+1])+", "+text(n.Args[i]), "swap arguments of "+text(n))
							}
						}
					case *ast.SelectorExpr:
						if s := p.TypesInfo.Selections[n]; s != nil && s.Kind() == types.FieldVal && !lhs[n] {
							st, ok := s.Recv().Underlying().(*types.Struct)
							if pt, ok2 := s.Recv().Underlying().(*types.Pointer); ok2 {
								st, ok = pt.Elem().Underlying().(*types.Struct)
							}
							if ok {
								for i := 0; i < st.NumFields(); i++ {
									f := st.Field(i)
									if f.Name() != n.Sel.Name && types.Identical(f.Type(), s.Type()) {
										add(n.Sel.Pos(), n.Sel.End(), f.Name(), n.Sel.Name+" -> "+f.Name()+" in "+text(n))
										break
									}
								}
							}
						}
					case *ast.Ident:
						v, ok := p.TypesInfo.Uses[n].(*types.Var)
						if !ok || v.IsField() || lhs[n] || v.Parent() == p.Types.Scope() {
							return true
						}
						xs := byType[v.Type().String()]
						for i, x := range xs {
							if x == n.Name && len(xs) > 1 {
								r := xs[(i+1+int(n.Pos())%(len(xs)-1))%len(xs)]
								if r == n.Name {
									r = xs[(i+1)%len(xs)]
								}
								add(n.Pos(), n.End(), r, n.Name+" -> "+r)
								break
							}
						}
					}
					return true
				})
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].File < out[j].File })
	for i := range out {
		out[i].ID = i
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
