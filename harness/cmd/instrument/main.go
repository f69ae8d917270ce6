// Command instrument prepares a build overlay of the library: in every package a call to vy.Y is put
// before each statement (except in the pure codec packages) and package sync is replaced by vsync. The
// files under -repo are only read.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var keepSync bool

type edit struct {
	off, del int
	text     string
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.BoolVar(&keepSync, "keep-sync", false, "leave package sync alone")
	flag.Parse()
	if err := run(*repo, *out); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func run(repo, out string) error {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	replace := map[string]string{}
	n := 0
	err := filepath.WalkDir(filepath.Join(repo, "mqtt"), func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if d.Name() == "testdata" || strings.HasPrefix(d.Name(), "_") || strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		res, changed, err := instrument(path, src, !strings.HasPrefix(filepath.ToSlash(rel), "mqtt/packets/"))
		if err != nil {
			return err
		}
		if changed {
			dst := filepath.Join(out, fmt.Sprintf("f%d_%s", n, filepath.Base(path)))
			n++
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				return err
			}
			replace[path] = dst
		}
		return nil
	})
	if err != nil {
		return err
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	return os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644)
}

func instrument(path string, src []byte, yields bool) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				return nil, false, nil // not part of every build: leave it alone
			}
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var eds []edit
	for _, im := range f.Imports {
		if keepSync || im.Path.Value != `"sync"` {
			continue
		}
		text := `"tinyverif/vsync"`
		if im.Name == nil {
			text = "sync " + text
		}
		eds = append(eds, edit{off(im.Path.Pos()), len(im.Path.Value), text})
	}
	if yields {
		had := len(eds)
		list := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				y := "vy.Y(); "
				if waits(s) {
					y = "vy.W(); "
				} else if wakes(s) {
					y = "vy.X(); "
				}
				eds = append(eds, edit{off(s.Pos()), 0, y})
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				// the body of a switch or select holds clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
		if len(eds) > had {
			eds = append(eds, edit{off(f.Name.End()), 0, `; import vy "tinyverif/vsync/vy"`})
		}
	}
	if len(eds) == 0 {
		return nil, false, nil
	}
	sort.SliceStable(eds, func(i, j int) bool { return eds[i].off < eds[j].off })
	var sb strings.Builder
	last := 0
	for _, e := range eds {
		sb.Write(src[last:e.off])
		sb.WriteString(e.text)
		last = e.off + e.del
	}
	sb.Write(src[last:])
	return []byte(sb.String()), true, nil
}

// waits reports whether a statement may wait at once, for a channel.
func waits(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return waits(x.Stmt)
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			if c.(*ast.CommClause).Comm == nil {
				return false // there is a default
			}
		}
		return true
	case *ast.SendStmt:
		return true
	case *ast.ExprStmt:
		return receives(x.X)
	case *ast.AssignStmt:
		return len(x.Rhs) == 1 && receives(x.Rhs[0])
	}
	return false
}

func receives(e ast.Expr) bool {
	u, ok := e.(*ast.UnaryExpr)
	return ok && u.Op == token.ARROW
}

// wakes reports whether a statement may wake another goroutine: close(channel), a cancel function, go.
func wakes(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.LabeledStmt:
		return wakes(x.Stmt)
	case *ast.GoStmt, *ast.SelectStmt:
		return true
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			switch f := c.Fun.(type) {
			case *ast.Ident:
				return true
			case *ast.SelectorExpr:
				return f.Sel.Name == "Broadcast" || f.Sel.Name == "Signal" || f.Sel.Name == "Done"
			}
		}
	}
	return false
}
