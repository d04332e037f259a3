// instr inserts preemption points into Go source files.
//
//	instr LEVEL OUTDIR ROOT  ->  prints "orig<TAB>instrumented" lines
//
// LEVEL 1: a point before every statement.
// LEVEL 2: also between the read and the write of x op= y, x++ and x = f(x).
// Edits are purely syntactic and never move a statement to another line.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

func main() {
	level, _ := strconv.Atoi(os.Args[1])
	outdir, root := os.Args[2], os.Args[3]
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		n := fi.Name()
		if fi.IsDir() {
			if p != root && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" || strings.HasPrefix(n, "zz_verif")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && filepath.Dir(p) != root {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	points := 0
	for i, f := range files {
		firstSite = points
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		out, n, err := instrument(f, src, level)
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		points += n
		if n == 0 {
			continue
		}
		dst := filepath.Join(outdir, fmt.Sprintf("%03d_%s", i, filepath.Base(f)))
		if err := os.WriteFile(dst, out, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		fmt.Printf("%s\t%s\n", f, dst)
	}
	fmt.Fprintf(os.Stderr, "instr: %d files, %d preemption points\n", len(files), points)
}

// firstSite is the number of preemption points in the files before this one.
var firstSite int

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func instrument(name string, src []byte, level int) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	for _, imp := range f.Imports {
		if imp.Path.Value == `"C"` {
			return nil, 0, nil
		}
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var edits []edit
	add := func(a, b int, t string) { edits = append(edits, edit{a, b, t, len(edits)}) }
	points := 0
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			points++
			add(off(s.Pos()), off(s.Pos()), fmt.Sprintf("zzrt.SimAt(%d); ", firstSite+points))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				points++
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, fmt.Sprintf(" zzrt.SimAt(%d); ", firstSite+points))
			}
		case *ast.IncDecStmt:
			if level >= 2 && pure(n.X) {
				points++
				op := "+"
				if n.Tok == token.DEC {
					op = "-"
				}
				add(off(n.TokPos), off(n.TokPos)+2, fmt.Sprintf("= zzrt.SimY(%d, ", firstSite+points)+txt(n.X)+") "+op+" 1")
			}
		case *ast.AssignStmt:
			if level < 2 || len(n.Lhs) != 1 || len(n.Rhs) != 1 {
				return true
			}
			l, r := n.Lhs[0], n.Rhs[0]
			if !pure(l) {
				return true
			}
			switch n.Tok {
			case token.ADD_ASSIGN, token.SUB_ASSIGN, token.MUL_ASSIGN, token.QUO_ASSIGN, token.REM_ASSIGN,
				token.AND_ASSIGN, token.OR_ASSIGN, token.XOR_ASSIGN, token.SHL_ASSIGN, token.SHR_ASSIGN, token.AND_NOT_ASSIGN:
				points++
				op := strings.TrimSuffix(n.Tok.String(), "=")
				add(off(n.TokPos), off(n.TokPos)+len(n.Tok.String()), fmt.Sprintf("= zzrt.SimY(%d, ", firstSite+points)+txt(l)+") "+op+" (")
				add(off(r.End()), off(r.End()), ")")
			case token.ASSIGN:
				lt := txt(l)
				uses := false
				ast.Inspect(r, func(m ast.Node) bool {
					if e, ok := m.(ast.Expr); ok && !uses {
						if _, lit := e.(*ast.FuncLit); lit {
							return false
						}
						if txt(e) == lt {
							uses = true
						}
					}
					return !uses
				})
				if uses {
					points++
					add(off(r.Pos()), off(r.Pos()), fmt.Sprintf("zzrt.SimY(%d, ", firstSite+points))
					add(off(r.End()), off(r.End()), ")")
				}
			}
		}
		return true
	})
	if points == 0 {
		return nil, 0, nil
	}
	add(off(f.Name.End()), off(f.Name.End()), "; import zzrt \"runtime\"")
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// closers of inner nodes were added later: at equal offsets pure
		// insertions go before replacements, in order of discovery
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	at := 0
	for _, e := range edits {
		if e.off < at {
			return nil, 0, fmt.Errorf("%s: overlapping edits at %d", name, e.off)
		}
		out = append(out, src[at:e.off]...)
		out = append(out, e.text...)
		at = e.end
	}
	out = append(out, src[at:]...)
	return out, points, nil
}
