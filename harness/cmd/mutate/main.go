// mutate lists small changes to a Go source tree, for measuring what the checks
// detect. Nothing that a check runs uses it.
//
//	mutate REPO PKGDIR...    prints one JSON object per change:
//	                         {"file", "off", "end", "text", "op", "line", "func"}
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type change struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Text string `json:"text"`
	Op   string `json:"op"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	repo := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, p := range os.Args[2:] {
		names, _ := filepath.Glob(filepath.Join(repo, p, "*.go"))
		sort.Strings(names)
		for _, n := range names {
			if strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(n)
			if err != nil {
				panic(err)
			}
			rel, _ := filepath.Rel(repo, n)
			for _, c := range changes(rel, b) {
				enc.Encode(c)
			}
		}
	}
}

func changes(rel string, b []byte) (out []change) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, b, 0)
	if err != nil {
		panic(err)
	}
	fn := ""
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	src := func(n ast.Node) string { return string(b[off(n.Pos()):off(n.End())]) }
	add := func(op string, pos, end token.Pos, text string) {
		out = append(out, change{rel, off(pos), off(end), text, op, fset.Position(pos).Line, fn})
	}
	swap := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS},
		token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
	}
	var consts []string
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "frame" && ast.IsExported(s.Sel.Name) {
				consts = append(consts, s.Sel.Name)
			}
		}
		return true
	})
	simple := func(s ast.Stmt) bool {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.IfStmt:
			return true
		case *ast.AssignStmt:
			return x.Tok != token.DEFINE
		}
		return false
	}
	list := func(l []ast.Stmt) {
		for i, s := range l {
			if simple(s) {
				add("delete", s.Pos(), s.End(), "")
			}
			switch s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt:
				add("delete", s.Pos(), s.End(), "")
			}
			if i+1 < len(l) && simple(s) && simple(l[i+1]) {
				add("exchange", s.Pos(), l[i+1].End(), src(l[i+1])+"\n"+src(s))
			}
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			// constants and package variables
			fn = ""
		} else {
			fn = fd.Name.Name
			if fd.Recv != nil {
				fn = src(fd.Recv.List[0].Type) + "." + fn
			}
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BlockStmt:
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
				add("delete case", x.Pos(), x.End(), "")
				if len(x.List) > 1 {
					add("drop alternative", x.List[0].Pos(), x.List[1].Pos(), "")
				}
			case *ast.CommClause:
				list(x.Body)
				add("delete case", x.Pos(), x.End(), "")
				if x.Comm == nil {
					break
				}
			case *ast.IfStmt:
				add("negate", x.Cond.Pos(), x.Cond.End(), "!("+src(x.Cond)+")")
				if x.Else != nil {
					add("delete else", x.Body.End(), x.Else.End(), "")
				}
			case *ast.ForStmt:
				if x.Cond != nil {
					add("negate", x.Cond.Pos(), x.Cond.End(), "!("+src(x.Cond)+")")
				}
			case *ast.BinaryExpr:
				for _, t := range swap[x.Op] {
					if lit, ok := x.Y.(*ast.BasicLit); ok && lit.Kind == token.STRING && x.Op == token.ADD {
						continue
					}
					add("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String())
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add("left only", x.Pos(), x.End(), src(x.X))
					add("right only", x.Pos(), x.End(), src(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add("operator", x.OpPos, x.OpPos+1, "")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						add("constant", x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							add("constant", x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && !strings.Contains(x.Value, " ") {
					add("string", x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:])
				}
			case *ast.Ident:
				if x.Name == "true" {
					add("constant", x.Pos(), x.End(), "false")
				}
				if x.Name == "false" {
					add("constant", x.Pos(), x.End(), "true")
				}
			case *ast.SelectorExpr:
				if y, ok := x.X.(*ast.Ident); ok && y.Name == "frame" && ast.IsExported(x.Sel.Name) && len(consts) > 1 {
					for i, c := range consts {
						if c == x.Sel.Name {
							o := consts[(i+1)%len(consts)]
							if o != c {
								add("name", x.Sel.Pos(), x.Sel.End(), o)
							}
							break
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "nil" {
						continue
					}
					switch r.(type) {
					case *ast.Ident, *ast.CallExpr, *ast.SelectorExpr:
						add("nil", r.Pos(), r.End(), "nil")
					}
				}
				if len(x.Results) == 0 {
					add("delete", x.Pos(), x.End(), "")
				}
			case *ast.BranchStmt:
				switch x.Tok {
				case token.BREAK:
					add("branch", x.Pos(), x.End(), "")
					add("branch", x.Pos(), x.End(), "return")
				case token.CONTINUE:
					add("branch", x.Pos(), x.End(), "break")
					add("branch", x.Pos(), x.End(), "")
				}
			case *ast.CallExpr:
				// exchange the first two arguments, or return early
				if len(x.Args) == 2 {
					add("arguments", x.Args[0].Pos(), x.Args[1].End(), src(x.Args[1])+", "+src(x.Args[0]))
				}
			}
			return true
		})
	}
	return out
}
