// Command instr writes copies of Go sources with a tick before every statement and merges them into an overlay file.
//
// usage: instr OVERLAY.json OUT_DIR DIR...
//
// The tick (os.SimTick, see mkoverlay.py) counts down; at zero the simulator gets control: a preemption point of the
// cooperative scheduler, or the detection of a call which does not end. The statements themselves are not changed, nor
// are the line numbers. Generic over the source: nothing of the library is known here.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	ovFile, out := os.Args[1], os.Args[2]
	b, err := os.ReadFile(ovFile)
	check(err)
	var ov struct{ Replace map[string]string }
	check(json.Unmarshal(b, &ov))
	n, ticks := 0, 0
	for _, dir := range os.Args[3:] {
		fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			res, k := instrument(f, src)
			dst := filepath.Join(out, fmt.Sprintf("instr%d_%s.txt", n, filepath.Base(f)))
			check(os.WriteFile(dst, res, 0o644))
			ov.Replace[f] = dst
			n++
			ticks += k
		}
	}
	b, err = json.MarshalIndent(ov, "", " ")
	check(err)
	check(os.WriteFile(ovFile, b, 0o644))
	fmt.Printf("instr: %d files, %d ticks\n", n, ticks)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func instrument(name string, src []byte) ([]byte, int) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	check(err)
	var at []int
	add := func(p token.Pos) { at = append(at, fset.Position(p).Offset) }
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			add(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt: // also an empty loop body ticks
			if len(x.Body.List) == 0 {
				add(x.Body.Rbrace)
			}
		}
		return true
	})
	if len(at) == 0 {
		return src, 0
	}
	sort.Ints(at)
	var sb strings.Builder
	pos := fset.Position(f.Name.End()).Offset
	sb.Write(src[:pos])
	sb.WriteString(`; import simos__ "os"`)
	last := pos
	for i, o := range at {
		if i > 0 && at[i-1] == o {
			continue
		}
		sb.Write(src[last:o])
		sb.WriteString("simos__.SimTick(); ")
		last = o
	}
	sb.Write(src[last:])
	return []byte(sb.String()), len(at)
}
