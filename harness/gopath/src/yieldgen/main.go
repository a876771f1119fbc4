// Command yieldgen writes copies of Go source files with a call to
// verifyield.P() before every statement, and an overlay file for go build.
//
//	yieldgen [-clock] OUTDIR REALROOT KEYROOT pkgdir...
//
// With -clock it makes the files use the fast clock of verifyield instead.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var clocks = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "Tick": true,
	"NewTimer": true, "NewTicker": true, "AfterFunc": true}

// fastClock replaces the functions of package time (and context.WithTimeout).
func fastClock(fset *token.FileSet, file *ast.File, src []byte) string {
	names := map[string]string{}
	for _, im := range file.Imports {
		if p := strings.Trim(im.Path.Value, "\""); p == "time" || p == "context" {
			n := p
			if im.Name != nil {
				n = im.Name.Name
			}
			names[n] = p
		}
	}
	type edit struct{ from, to int }
	var edits []edit
	ast.Inspect(file, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		x, ok := s.X.(*ast.Ident)
		if !ok {
			return true
		}
		p := names[x.Name]
		if p == "time" && clocks[s.Sel.Name] || p == "context" && s.Sel.Name == "WithTimeout" {
			edits = append(edits, edit{fset.Position(x.Pos()).Offset, fset.Position(x.End()).Offset})
		}
		return true
	})
	if len(edits) == 0 {
		return ""
	}
	sort.Slice(edits, func(a, b int) bool { return edits[a].from < edits[b].from })
	pkgEnd := fset.Position(file.Name.End()).Offset
	var b strings.Builder
	b.Write(src[:pkgEnd])
	b.WriteString(`; import verifyield "verifyield"`)
	at := pkgEnd
	for _, e := range edits {
		b.Write(src[at:e.from])
		b.WriteString("verifyield")
		at = e.to
	}
	b.Write(src[at:])
	for n, p := range names {
		if p == "time" {
			b.WriteString("\nvar _ " + n + ".Duration\n")
		} else {
			b.WriteString("\nvar _ " + n + ".Context\n")
		}
	}
	return b.String()
}

func main() {
	clock := false
	if os.Args[1] == "-clock" {
		clock = true
		os.Args = append(os.Args[:1], os.Args[2:]...)
	}
	out, real, key := os.Args[1], os.Args[2], os.Args[3]
	repl := map[string]string{}
	for _, pkg := range os.Args[4:] {
		files, _ := filepath.Glob(filepath.Join(real, pkg, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			fset := token.NewFileSet()
			file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			name := filepath.Join(out, strings.ReplaceAll(pkg, "/", "_")+"_"+filepath.Base(f))
			if clock {
				if x := fastClock(fset, file, src); x != "" {
					if err := os.WriteFile(name, []byte(x), 0644); err != nil {
						fmt.Fprintln(os.Stderr, err)
						os.Exit(1)
					}
					repl[filepath.Join(key, pkg, filepath.Base(f))] = name
				}
				continue
			}
			var offs []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); ok {
						continue
					}
					offs = append(offs, fset.Position(s.Pos()).Offset)
				}
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					// clauses of switch and select are no statements
					// to insert before
					if len(b.List) > 0 {
						switch b.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					add(b.List)
				case *ast.CaseClause:
					add(b.Body)
				case *ast.CommClause:
					add(b.Body)
				}
				return true
			})
			if len(offs) == 0 {
				continue
			}
			sort.Ints(offs)
			pkgEnd := fset.Position(file.Name.End()).Offset
			var b strings.Builder
			b.Write(src[:pkgEnd])
			b.WriteString(`; import verifyield "verifyield"`)
			at := pkgEnd
			for _, o := range offs {
				b.Write(src[at:o])
				b.WriteString("verifyield.P();")
				at = o
			}
			b.Write(src[at:])
			if err := os.WriteFile(name, []byte(b.String()), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			repl[filepath.Join(key, pkg, filepath.Base(f))] = name
		}
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
