package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// perturbMain writes copies of the library's concurrent functions with a
// pause before every statement, and an overlay with which go build uses them.
// The schedules of such a build are ones that a plain build shows seldom or
// never. Only functions that start goroutines, use channels or take locks are
// changed, and only by calls of a function that gives up the processor now
// and then, so that what the code does is otherwise the same.
func perturbMain(repo, out string) {
	replace := map[string]string{}
	points := 0
	dirs := map[string]string{} // directory: package name
	filepath.WalkDir(repo, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); path != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil || f.Name.Name == "main" {
			return nil
		}
		ins := map[int]string{} // offset: text
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && concurrent(fd.Body) {
				perturbBody(fset, fd.Body, ins)
			}
		}
		if len(ins) == 0 {
			return nil
		}
		var at []int
		for o := range ins {
			at = append(at, o)
		}
		sort.Ints(at)
		var b []byte
		last := 0
		for _, o := range at {
			b = append(b, src[last:o]...)
			b = append(b, ins[o]...)
			last = o
		}
		b = append(b, src[last:]...)
		name := filepath.Join(out, fmt.Sprintf("f%d.go", len(replace)))
		if os.WriteFile(name, b, 0o644) != nil {
			return nil
		}
		replace[path] = name
		dirs[filepath.Dir(path)] = f.Name.Name
		points += len(ins)
		return nil
	})
	for dir, pkg := range dirs {
		name := filepath.Join(out, "pause_"+filepath.Base(dir)+".go")
		os.WriteFile(name, []byte("package "+pkg+`

import (
	"math/rand/v2"
	"runtime"
	"time"
)

// verifPause gives up the processor now and then. It synchronises with
// nothing, so that it hides no race.
func verifPause() {
	switch n := rand.Uint32() & 255; {
	case n < 2:
		time.Sleep(time.Duration(1+rand.Uint32()&127) * time.Microsecond)
	case n < 48:
		runtime.Gosched()
	}
}
`), 0o644)
		replace[filepath.Join(dir, "verif_pause_overlay.go")] = name
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Println(points)
}

// concurrent says whether a function has to do with other goroutines.
func concurrent(n ast.Node) (yes bool) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt, *ast.ChanType:
			yes = true
		case *ast.UnaryExpr:
			yes = yes || n.Op == token.ARROW
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.Ident:
				yes = yes || f.Name == "close"
			case *ast.SelectorExpr:
				switch f.Sel.Name {
				case "Lock", "Unlock", "RLock", "RUnlock", "Wait", "Done", "Do", "CompareAndSwap", "Store", "Load", "Get", "Put":
					yes = true
				}
			}
		}
		return !yes
	})
	return
}

func perturbBody(fset *token.FileSet, body *ast.BlockStmt, ins map[int]string) {
	list := func(l []ast.Stmt) {
		for i, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.DeferStmt:
				// A pause on either side of when the deferred call is made.
				ins[fset.Position(s.Pos()).Offset] += "defer verifPause(); verifPause(); "
				if i+1 < len(l) {
					ins[fset.Position(l[i+1].Pos()).Offset] += "defer verifPause(); "
				}
				continue
			}
			ins[fset.Position(s.Pos()).Offset] += "verifPause(); "
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		}
		return true
	})
}
