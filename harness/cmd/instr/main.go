// instr writes instrumented copies of the source files of /repo and an overlay
// file for the go command that puts them in place of the originals.
//
//	instr REPO OUTDIR
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off, end int
	text     string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	pkgs := packages(repo)
	replace := map[string]string{}
	site := 0
	sites := []string{}
	for _, p := range pkgs {
		dir := filepath.Join(repo, p)
		ents, err := os.ReadDir(dir)
		if err != nil {
			fatal(err)
		}
		fset := token.NewFileSet()
		files := map[string]*ast.File{}
		src := map[string][]byte{}
		goNames := map[string]bool{}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			path := filepath.Join(dir, n)
			b, err := os.ReadFile(path)
			if err != nil {
				fatal(err)
			}
			f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files[path], src[path] = f, b
			ast.Inspect(f, func(n ast.Node) bool {
				if g, ok := n.(*ast.GoStmt); ok {
					switch x := g.Call.Fun.(type) {
					case *ast.Ident:
						goNames[x.Name] = true
					case *ast.SelectorExpr:
						goNames[x.Sel.Name] = true
					}
				}
				return true
			})
		}
		paths := []string{}
		for path := range files {
			paths = append(paths, path)
		}
		sort.Strings(paths)
		for _, path := range paths {
			f, b := files[path], src[path]
			var eds []edit
			off := func(p token.Pos) int { return fset.Position(p).Offset }
			used := false
			point := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), fmt.Sprintf("vsched.Point(%d);", site)})
					sites = append(sites, fmt.Sprintf("%s:%d", path, fset.Position(s.Pos()).Line))
					site++
					used = true
				}
			}
			rec := func(body *ast.BlockStmt) {
				o := off(body.Lbrace) + 1
				eds = append(eds, edit{o, o, "defer vsched.Recover();"})
				used = true
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil || fd.Name.Name == "init" && fd.Recv == nil {
					continue
				}
				if goNames[fd.Name.Name] {
					rec(fd.Body)
				}
				ast.Inspect(fd.Body, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.BlockStmt:
						point(x.List)
					case *ast.CaseClause:
						point(x.Body)
					case *ast.CommClause:
						point(x.Body)
					case *ast.GoStmt:
						if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
							rec(fl.Body)
						}
					case *ast.SelectStmt:
						// the clauses of a switch or select are not statements
						for _, c := range x.Body.List {
							ast.Inspect(c, func(ast.Node) bool { return true })
						}
					}
					return true
				})
			}
			// a switch/select body is a BlockStmt whose list holds clauses: drop those points
			clause := map[int]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.CaseClause:
					clause[off(x.Pos())] = true
				case *ast.CommClause:
					clause[off(x.Pos())] = true
				}
				return true
			})
			var keep []edit
			for _, e := range eds {
				if clause[e.off] && strings.HasPrefix(e.text, "vsched.Point") {
					continue
				}
				keep = append(keep, e)
			}
			eds = keep
			for _, im := range f.Imports {
				if im.Path.Value == `"sync"` {
					name := "sync "
					if im.Name != nil {
						name = ""
					}
					eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), name + `"verif/vsync"`})
				}
			}
			if used {
				o := off(f.Name.End())
				eds = append(eds, edit{o, o, `;import vsched "verif/vsched"`})
			}
			if len(eds) == 0 {
				continue
			}
			sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
			var sb strings.Builder
			pos := 0
			for _, e := range eds {
				sb.Write(b[pos:e.off])
				sb.WriteString(e.text)
				pos = e.end
			}
			sb.Write(b[pos:])
			dst := filepath.Join(out, strings.ReplaceAll(strings.TrimPrefix(path, repo+"/"), "/", "__"))
			if err := os.WriteFile(dst, []byte(sb.String()), 0o644); err != nil {
				fatal(err)
			}
			replace[path] = dst
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0o644); err != nil {
		fatal(err)
	}
	sj, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(out, "sites.json"), sj, 0o644); err != nil {
		fatal(err)
	}
}

// packages lists the directories with code that the drivers may run, except
// package frame, which has no concurrency and is run too often.
func packages(repo string) (out []string) {
	err := filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if !d.IsDir() {
			return nil
		}
		switch base := d.Name(); {
		case rel == ".":
		case strings.HasPrefix(base, "."), strings.HasPrefix(base, "_"), base == "testdata", base == "vendor",
			rel == "examples", rel == "stompd", rel == "testutil", rel == "frame":
			return filepath.SkipDir
		}
		if m, _ := filepath.Glob(filepath.Join(path, "*.go")); len(m) > 0 {
			out = append(out, rel)
		}
		return nil
	})
	if err != nil {
		fatal(err)
	}
	return out
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(2)
}
