// Command instrument writes copies of library packages with a yield point in
// front of every statement and with sync and sync/atomic replaced by shims, plus
// the overlay file that makes the go command use the copies. It changes nothing
// in the repository.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int // replace [pos,end)
	text     string
	prio     int
}

func instrument(src []byte, name string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var edits []edit
	ins := func(p token.Pos, s string) { edits = append(edits, edit{off(p), off(p), s, 0}) }
	runtimeName := ""
	for _, im := range f.Imports {
		alias := ""
		if im.Name != nil {
			alias = im.Name.Name
		}
		path := strings.Trim(im.Path.Value, "\"`")
		repl := ""
		switch path {
		case "sync":
			if alias == "" {
				alias = "sync"
			}
			repl = "verif.local/harness/vsched/vsync"
		case "sync/atomic":
			if alias == "" {
				alias = "atomic"
			}
			repl = "verif.local/harness/vsched/vatomic"
		case "runtime":
			if alias == "" {
				alias = "runtime"
			}
			runtimeName = alias
		}
		if repl != "" {
			start := im.Path.Pos()
			if im.Name != nil {
				start = im.Name.Pos()
			}
			edits = append(edits, edit{off(start), off(im.Path.End()), alias + " \"" + repl + "\"", 0})
		}
	}
	// the scheduler import goes on the line of the package clause
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import vschedY__ \"verif.local/harness/vsched\"", 0})
	gosched := false
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			ins(s.Pos(), "vschedY__.Y(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				ins(x.Body.Rbrace, " vschedY__.Y() ")
			}
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Gosched" {
				if id, ok := sel.X.(*ast.Ident); ok && runtimeName != "" && id.Name == runtimeName {
					edits = append(edits, edit{off(id.Pos()), off(id.End()), "vschedY__", 1})
					gosched = true
				}
			}
		}
		return true
	})
	// bodies of switch and select are BlockStmts whose lists are clauses: drop those insertions
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			clause[off(x.Pos())] = true
		case *ast.CommClause:
			clause[off(x.Pos())] = true
		}
		return true
	})
	kept := edits[:0]
	for _, e := range edits {
		if e.text == "vschedY__.Y(); " && clause[e.pos] {
			continue
		}
		kept = append(kept, e)
	}
	edits = kept
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].prio < edits[j].prio
	})
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.pos < last {
			return "", fmt.Errorf("overlapping edits at %d", e.pos)
		}
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString("\nvar _ = vschedY__.Y\n")
	if gosched {
		b.WriteString("\nvar _ = " + runtimeName + ".Gosched\n")
	}
	out := b.String()
	if _, err := parser.ParseFile(token.NewFileSet(), name, out, 0); err != nil {
		return "", fmt.Errorf("instrumented file does not parse: %v", err)
	}
	return out, nil
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	flag.Parse()
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		panic(err)
	}
	for _, pkg := range flag.Args() {
		dir := filepath.Join(*repo, pkg)
		ents, err := os.ReadDir(dir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			p := filepath.Join(dir, n)
			src, err := os.ReadFile(p)
			if err == nil {
				var text string
				text, err = instrument(src, p)
				if err == nil {
					dst := filepath.Join(*out, strings.ReplaceAll(pkg, "/", "_")+"_"+n)
					if old, e := os.ReadFile(dst); e != nil || string(old) != text {
						err = os.WriteFile(dst, []byte(text), 0o644)
					}
					overlay.Replace[p] = dst
				}
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, p, err)
				os.Exit(1)
			}
		}
	}
	b, _ := json.MarshalIndent(overlay, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		panic(err)
	}
}
