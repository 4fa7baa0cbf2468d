// Command instr copies the non-test Go files of a module, inserting a call to
// runtime.CtlStmt before every statement, and adds the copies to a go build
// overlay. Line numbers are preserved. Usage: instr MODDIR OUTDIR OVERLAY SKIP...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	mod, out, overlay := os.Args[1], os.Args[2], os.Args[3]
	skips := os.Args[4:]
	var ov struct{ Replace map[string]string }
	b, err := os.ReadFile(overlay)
	must(err)
	must(json.Unmarshal(b, &ov))
	must(os.MkdirAll(out, 0o755))
	files := 0
	must(filepath.Walk(mod, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(mod, path)
		if info.IsDir() {
			if rel != "." && strings.HasPrefix(info.Name(), ".") {
				return filepath.SkipDir
			}
			for _, s := range skips {
				if rel == s {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res, ok := instrument(path, src)
		if !ok {
			return nil
		}
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		if old, err := os.ReadFile(dst); err != nil || string(old) != string(res) {
			must(os.WriteFile(dst, res, 0o644))
		}
		ov.Replace[path] = dst
		files++
		return nil
	}))
	b, _ = json.MarshalIndent(ov, "", " ")
	must(os.WriteFile(overlay, b, 0o644))
	fmt.Fprintln(os.Stderr, "instrumented", files, "files")
}

func instrument(path string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false
	}
	for _, c := range f.Comments {
		if strings.Contains(c.Text(), "DO NOT EDIT") {
			return nil, false
		}
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.List)
		case *ast.CaseClause:
			add(n.Body)
		case *ast.CommClause:
			add(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	pkgEnd := fset.Position(f.Name.End()).Offset
	var sb strings.Builder
	sb.Write(src[:pkgEnd])
	sb.WriteString("; import zzverifrt \"runtime\"")
	last := pkgEnd
	for _, o := range at {
		sb.Write(src[last:o])
		sb.WriteString("zzverifrt.CtlStmt(); ")
		last = o
	}
	sb.Write(src[last:])
	return []byte(sb.String()), true
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}
