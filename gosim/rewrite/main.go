// rewrite SRC DST copies the Go binding and puts its sources of nondeterminism behind the simulator:
// sync and sync/atomic are replaced, a scheduling point is put before every statement, go statements
// start simulated goroutines, and the C library is not linked (package cstub stands in for it).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at, end int
	text    string
	order   int
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "rewrite:", err)
	os.Exit(3)
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	if err := os.RemoveAll(dst); err != nil {
		die(err)
	}
	err := filepath.Walk(src, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, path)
		if fi.IsDir() {
			if rel == "testlink" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		ext := filepath.Ext(rel)
		if strings.HasSuffix(rel, "_test.go") || (ext != ".go" && ext != ".h" && ext != ".c") {
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if ext == ".go" {
			b = file(path, b)
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if err != nil {
		die(err)
	}
	mod := `module github.com/anacrolix/possum/go

go 1.21.4

require (
	github.com/anacrolix/chansync v0.5.1
	github.com/anacrolix/generics v0.0.2
	github.com/anacrolix/missinggo/v2 v2.7.3
)
`
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(mod), 0o644); err != nil {
		die(err)
	}
}

func file(path string, b []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
	if err != nil {
		die(err)
	}
	var edits []edit
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }
	usesC := false
	local := func(imp *ast.ImportSpec, def string) string {
		if imp.Name != nil {
			return ""
		}
		return def + " "
	}
	runtimeName := ""
	for _, imp := range f.Imports {
		switch imp.Path.Value {
		case `"C"`:
			usesC = true
		case `"sync"`:
			add(pos(imp.Path.Pos()), pos(imp.Path.End()), local(imp, "sync")+`"possumsim/simsync"`)
		case `"sync/atomic"`:
			add(pos(imp.Path.Pos()), pos(imp.Path.End()), local(imp, "atomic")+`"possumsim/simatomic"`)
		case `"runtime"`:
			runtimeName = "runtime"
			if imp.Name != nil {
				runtimeName = imp.Name.Name
			}
		}
	}
	sched := false
	point := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.LabeledStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(pos(s.Pos()), pos(s.Pos()), "simsched.Point(); ")
			sched = true
		}
	}
	finalizer := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			point(n.List)
		case *ast.CaseClause:
			point(n.Body)
		case *ast.CommClause:
			point(n.Body)
		case *ast.GoStmt:
			// The function and its arguments are evaluated at once.
			sched = true
			text := func(e ast.Node) string { return string(b[pos(e.Pos()):pos(e.End())]) }
			if _, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				add(pos(n.Go), pos(n.Go)+2, "simsched.Go(")
				add(pos(n.Call.Lparen), pos(n.Call.Rparen)+1, ")")
			} else {
				pre, args := "{ simf := "+text(n.Call.Fun)+"; ", []string{}
				for i, a := range n.Call.Args {
					pre += fmt.Sprintf("sima%d := %s; ", i, text(a))
					args = append(args, fmt.Sprintf("sima%d", i))
				}
				if n.Call.Ellipsis != token.NoPos {
					args[len(args)-1] += "..."
				}
				add(pos(n.Pos()), pos(n.End()), pre+"simsched.Go(func() { simf("+strings.Join(args, ", ")+") }) }")
				return false
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && runtimeName != "" && x.Name == runtimeName && n.Sel.Name == "SetFinalizer" {
				add(pos(x.Pos()), pos(x.End()), "simsched")
				sched, finalizer = true, true
			}
		}
		return true
	})
	at := pos(f.Name.End())
	// Imports come before declarations.
	if sched {
		add(at, at, `; import simsched "possumsim/sched"`)
		add(len(b), len(b), "\nvar _ = simsched.Point\n")
	}
	if finalizer {
		add(len(b), len(b), "\nvar _ = "+runtimeName+".GC\n")
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		return edits[i].order < edits[j].order
	})
	var out strings.Builder
	last := 0
	for _, e := range edits {
		if e.at < last {
			die(fmt.Errorf("%s: overlapping edits at %d", path, e.at))
		}
		out.Write(b[last:e.at])
		out.WriteString(e.text)
		last = e.end
	}
	out.Write(b[last:])
	text := out.String()
	if usesC {
		lines := strings.Split(text, "\n")
		for i, l := range lines {
			if strings.HasPrefix(strings.TrimSpace(l), "#cgo") && strings.Contains(l, "LDFLAGS") {
				lines[i] = "#cgo LDFLAGS: -Wl,--unresolved-symbols=ignore-all"
			}
		}
		text = strings.Join(lines, "\n")
	}
	return []byte(text)
}
