// Command mutate lists small edits of the packages of a Go module, as JSON
// lines {file, start, end, text, kind, fn}. It is a development tool: the
// campaign in tools/mutants.py uses it to look for changes no check notices.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	Kind  string `json:"kind"`
	Fn    string `json:"fn"`
	Line  int    `json:"line"`
	Old   string `json:"old"`
}

var swapOp = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&", "^"}, token.XOR: {"|", "&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
}

func main() {
	dir := flag.String("repo", "/repo", "")
	flag.Parse()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: *dir}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(os.Stdout)
	for _, p := range ps {
		for i, f := range p.Syntax {
			path := p.CompiledGoFiles[i]
			src, _ := os.ReadFile(path)
			rel, _ := filepath.Rel(*dir, path)
			fn := ""
			emit := func(n ast.Node, text, kind string) {
				a, b := p.Fset.Position(n.Pos()), p.Fset.Position(n.End())
				enc.Encode(mut{rel, a.Offset, b.Offset, text, kind, fn, a.Line, string(src[a.Offset:b.Offset])})
			}
			str := func(n ast.Node) string {
				return string(src[p.Fset.Position(n.Pos()).Offset:p.Fset.Position(n.End()).Offset])
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if ok {
					fn = fd.Name.Name
				} else {
					fn = ""
				}
				if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
					continue
				}
				// the variables of a function by type
				vars := map[string][]string{}
				if ok {
					for id, o := range p.TypesInfo.Defs {
						if v, ok := o.(*types.Var); ok && id.Pos() >= fd.Pos() && id.End() <= fd.End() && id.Name != "_" && !v.IsField() {
							t := v.Type().String()
							vars[t] = append(vars[t], id.Name)
						}
					}
				}
				ast.Inspect(d, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt:
						for _, s := range x.List {
							switch y := s.(type) {
							case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SendStmt:
								emit(s, "", "delete")
							case *ast.IfStmt:
								emit(s, "", "delete")
							case *ast.AssignStmt:
								if y.Tok != token.DEFINE {
									emit(s, "", "delete")
								}
							}
						}
						for i := 0; i+1 < len(x.List); i++ {
							a, b := x.List[i], x.List[i+1]
							if _, ok := b.(*ast.ReturnStmt); ok {
								continue
							}
							sp := &span{a.Pos(), b.End()}
							emit(sp, str(b)+"\n"+str(a), "swapstmt")
						}
					case *ast.IfStmt:
						emit(x.Cond, "!("+str(x.Cond)+")", "negate")
						emit(x.Cond, "false && ("+str(x.Cond)+")", "false")
						emit(x.Cond, "true || ("+str(x.Cond)+")", "true")
					case *ast.CaseClause:
						for i, e := range x.List {
							if len(x.List) > 1 && i > 0 {
								emit(&span{x.List[i-1].End(), e.End()}, "", "dropcase")
							}
						}
					case *ast.BinaryExpr:
						for _, o := range swapOp[x.Op] {
							emit(&span{x.OpPos, x.OpPos + token.Pos(len(x.Op.String()))}, o, "op")
						}
					case *ast.AssignStmt:
						for _, o := range map[token.Token][]string{token.ADD_ASSIGN: {"-=", "="}, token.OR_ASSIGN: {"=", "&="}, token.AND_ASSIGN: {"=", "|="}, token.XOR_ASSIGN: {"="}, token.SHR_ASSIGN: {"<<="}, token.SHL_ASSIGN: {">>="}}[x.Tok] {
							emit(&span{x.TokPos, x.TokPos + token.Pos(len(x.Tok.String()))}, o, "op")
						}
						if x.Tok == token.DEFINE {
							emit(&span{x.TokPos, x.TokPos + 2}, "=", "shadow")
						} else if x.Tok == token.ASSIGN {
							emit(&span{x.TokPos, x.TokPos + 1}, ":=", "shadow")
						}
					case *ast.BasicLit:
						switch x.Kind {
						case token.INT:
							v, err := strconv.ParseUint(x.Value, 0, 64)
							if err == nil {
								emit(x, fmt.Sprint(v+1), "const")
								if v > 0 {
									emit(x, fmt.Sprint(v-1), "const")
									emit(x, fmt.Sprint(v<<1), "const")
								}
							}
						case token.STRING:
							if s, err := strconv.Unquote(x.Value); err == nil && s != "" {
								emit(x, `""`, "str")
								emit(x, strconv.Quote(strings.ToUpper(s)+"x"), "str")
							}
						}
					case *ast.ReturnStmt:
						for _, r := range x.Results {
							t := p.TypesInfo.TypeOf(r)
							if t == nil {
								continue
							}
							if types.Implements(t, errT) && str(r) != "nil" {
								emit(r, "nil", "noerr")
							}
							if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
								emit(r, "!("+str(r)+")", "negate")
							}
						}
						if len(x.Results) == 2 && str(x.Results[0]) == "nil" {
							t := fd.Type.Results.List[0].Type
							for _, v := range vars[p.TypesInfo.TypeOf(t).String()] {
								emit(x.Results[0], v, "leak")
							}
						}
					case *ast.CallExpr:
						for i := 0; i < len(x.Args); i++ {
							for j := i + 1; j < len(x.Args); j++ {
								a, b := p.TypesInfo.TypeOf(x.Args[i]), p.TypesInfo.TypeOf(x.Args[j])
								if a != nil && b != nil && types.Identical(a, b) && str(x.Args[i]) != str(x.Args[j]) {
									mid := string(src[p.Fset.Position(x.Args[i].End()).Offset:p.Fset.Position(x.Args[j].Pos()).Offset])
									emit(&span{x.Args[i].Pos(), x.Args[j].End()}, str(x.Args[j])+mid+str(x.Args[i]), "swaparg")
								}
							}
						}
						// sibling functions
						var id *ast.Ident
						switch f := x.Fun.(type) {
						case *ast.Ident:
							id = f
						case *ast.SelectorExpr:
							id = f.Sel
						}
						if id == nil {
							break
						}
						if o, ok := p.TypesInfo.Uses[id].(*types.Func); ok && o.Pkg() != nil {
							sig := o.Type().(*types.Signature)
							if sig.Recv() == nil {
								sc := o.Pkg().Scope()
								for _, nm := range sc.Names() {
									if g, ok := sc.Lookup(nm).(*types.Func); ok && g != o && types.Identical(g.Type(), sig) && (o.Pkg() == p.Types || g.Exported()) {
										emit(id, nm, "callee")
									}
								}
							} else {
								ms := types.NewMethodSet(sig.Recv().Type())
								for k := 0; k < ms.Len(); k++ {
									g, ok := ms.At(k).Obj().(*types.Func)
									if ok && g != o && sameSig(g.Type().(*types.Signature), sig) && (g.Exported() || g.Pkg() == p.Types) {
										emit(id, g.Name(), "callee")
									}
								}
							}
						}
						if len(x.Args) == 1 {
							if t := p.TypesInfo.TypeOf(x); t != nil && types.Identical(t, p.TypesInfo.TypeOf(x.Args[0])) {
								emit(x, str(x.Args[0]), "unwrap")
							}
						}
					case *ast.SelectorExpr:
						if s, ok := p.TypesInfo.Selections[x]; ok && s.Kind() == types.FieldVal {
							rt := s.Recv()
							if q, ok := rt.Underlying().(*types.Pointer); ok {
								rt = q.Elem()
							}
							if st, ok := rt.Underlying().(*types.Struct); ok {
								for k := 0; k < st.NumFields(); k++ {
									g := st.Field(k)
									if g.Name() != x.Sel.Name && types.Identical(g.Type(), s.Type()) && (g.Exported() || g.Pkg() == p.Types) {
										emit(x.Sel, g.Name(), "field")
									}
								}
							}
						}
					case *ast.KeyValueExpr:
						if id, ok := x.Key.(*ast.Ident); ok {
							if v, ok := p.TypesInfo.Uses[id].(*types.Var); ok && v.IsField() {
								emit(&span{x.Pos(), x.End() + 1}, "", "dropfield")
							}
						}
					case *ast.Ident:
						o := p.TypesInfo.Uses[x]
						switch v := o.(type) {
						case *types.Var:
							if !v.IsField() && v.Parent() != v.Pkg().Scope() {
								for _, w := range vars[v.Type().String()] {
									if w != x.Name {
										emit(x, w, "var")
									}
								}
							} else if !v.IsField() {
								sc := v.Pkg().Scope()
								for _, nm := range sc.Names() {
									if g, ok := sc.Lookup(nm).(*types.Var); ok && g != v && types.Identical(g.Type(), v.Type()) && v.Pkg() == p.Types {
										emit(x, nm, "global")
									}
								}
							}
						case *types.Const:
							if v.Pkg() != nil {
								sc := v.Pkg().Scope()
								k := 0
								for _, nm := range sc.Names() {
									if g, ok := sc.Lookup(nm).(*types.Const); ok && g != v && types.Identical(g.Type(), v.Type()) && (v.Pkg() == p.Types || g.Exported()) && strings.HasPrefix(v.Pkg().Path(), "github.com/moov-io/dukpt") && k < 6 {
										emit(x, nm, "constname")
										k++
									}
								}
							}
						}
					}
					return true
				})
			}
		}
	}
}

func sameSig(a, b *types.Signature) bool {
	return types.Identical(types.NewSignatureType(nil, nil, nil, a.Params(), a.Results(), a.Variadic()), types.NewSignatureType(nil, nil, nil, b.Params(), b.Results(), b.Variadic()))
}

var errT = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

type span struct{ a, b token.Pos }

func (s *span) Pos() token.Pos { return s.a }
func (s *span) End() token.Pos { return s.b }
