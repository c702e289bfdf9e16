// points REPO OUTDIR: copies of the repository's packages with a scheduling point before every statement, and an overlay
// (JSON on stdout: path -> copy) that puts them in place of the originals. Line numbers stay as they are.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var procs = map[string]bool{"gossiper": true, "monitor": true, "CA": true, "Logger": true, "client": true}

func main() {
	repo, out := os.Args[1], os.Args[2]
	rep := map[string]string{}
	os.MkdirAll(out, 0755)
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			// only the processes have points; the libraries they use run in one go
			if n := fi.Name(); p != repo && !procs[n] {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if t, ok := instrument(p, src); ok {
			rel, _ := filepath.Rel(repo, p)
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			if os.WriteFile(dst, t, 0644) == nil {
				rep[p] = dst
			}
		}
		return nil
	})
	json.NewEncoder(os.Stdout).Encode(rep)
}

func instrument(p string, src []byte) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, p, src, parser.SkipObjectResolution)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil, false
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, false
		}
	}
	var at []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.LabeledStmt, *ast.CaseClause, *ast.CommClause, *ast.DeclStmt:
				continue
			}
			at = append(at, fs.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	at = append(at, fs.Position(f.Name.End()).Offset)
	pk := at[len(at)-1]
	sort.Ints(at)
	var b strings.Builder
	last := 0
	for _, o := range at {
		b.Write(src[last:o])
		if o == pk {
			b.WriteString(`; import verifsync "sync"`)
		} else {
			b.WriteString("verifsync.VerifPoint();")
		}
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
