// Makes a copy of the sources of a package that may lose the processor before
// every statement, so that more interleavings happen than usual. It prints the
// "Replace" part of an overlay file.
//
//	yield OUTDIR RATE DIR...
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Without race detection, and without any synchronization that would hide races
const helper = `package %s

import (
	verifrt "runtime"
	veriftime "time"
)

var (
	verifSleeps int
	verifState  = uint64(veriftime.Now().UnixNano()) | 1
)

//go:norace
func verifYield() {
	x := verifState
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	verifState = x | 1
	switch r := uint32(x >> 16); {
	case r%%%d == 0:
		if verifSleeps < 3000 {
			verifSleeps++
			veriftime.Sleep(veriftime.Duration(r/1024%%300) * veriftime.Microsecond)
		}
	case r%%%d == 1:
		verifrt.Gosched()
	}
}
`

func main() {
	out, rate := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for n, dir := range os.Args[3:] {
		files, err := filepath.Glob(filepath.Join(dir, "*.go"))
		check(err)
		pkg := ""
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			check(err)
			fset := token.NewFileSet()
			tree, err := parser.ParseFile(fset, f, src, 0)
			check(err)
			pkg = tree.Name.Name
			var at []int
			add := func(list []ast.Stmt) {
				for _, s := range list {
					if _, ok := s.(*ast.EmptyStmt); !ok {
						at = append(at, fset.Position(s.Pos()).Offset)
					}
				}
			}
			ast.Inspect(tree, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				case *ast.BlockStmt:
					clauses := false
					for _, s := range n.List {
						switch s.(type) {
						case *ast.CaseClause, *ast.CommClause:
							clauses = true
						}
					}
					if !clauses {
						add(n.List)
					}
				case *ast.CaseClause:
					add(n.Body)
				case *ast.CommClause:
					add(n.Body)
				}
				return true
			})
			sort.Sort(sort.Reverse(sort.IntSlice(at)))
			for i, p := range at {
				if i > 0 && at[i-1] == p {
					continue
				}
				src = append(src[:p:p], append([]byte("verifYield(); "), src[p:]...)...)
			}
			o := filepath.Join(out, fmt.Sprintf("%d-%s", n, filepath.Base(f)))
			check(os.WriteFile(o, src, 0644))
			replace[f] = o
		}
		var r uint
		fmt.Sscan(rate, &r)
		o := filepath.Join(out, fmt.Sprintf("%d-zz_verif_yield.go", n))
		var b bytes.Buffer
		fmt.Fprintf(&b, helper, pkg, r<<(4*uint(n)), r)
		check(os.WriteFile(o, b.Bytes(), 0644))
		replace[filepath.Join(dir, "zz_verif_yield.go")] = o
	}
	check(json.NewEncoder(os.Stdout).Encode(map[string]any{"Replace": replace}))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
