// weave REPO OUT writes copies of the library's sources (the root package and util) with a call in front of every
// statement, and an overlay file for the go command that puts them in the place of the originals. The call lets the
// monitors hold the goroutine up there: other interleavings, the same program.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const hook = `package %s

// VerifWeave is called in front of every statement.
var VerifWeave func(site int)

func verifWeave(site int) {
	if f := VerifWeave; f != nil {
		f(site)
	}
}
`

func main() {
	repo, out := os.Args[1], os.Args[2]
	repo, err := filepath.Abs(repo)
	check(err)
	replace := map[string]string{}
	site := 0
	for _, dir := range []string{".", "util"} {
		files, err := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		check(err)
		pkg := ""
		for _, file := range files {
			if strings.HasSuffix(file, "_test.go") {
				continue
			}
			src, err := os.ReadFile(file)
			check(err)
			text, name := weave(file, src, &site)
			pkg = name
			to := filepath.Join(out, strings.ReplaceAll(dir, ".", "root")+"_"+filepath.Base(file))
			check(os.WriteFile(to, text, 0o644))
			replace[file] = to
		}
		if pkg != "" {
			to := filepath.Join(out, pkg+"_hook.go")
			check(os.WriteFile(to, []byte(fmt.Sprintf(hook, pkg)), 0o644))
			replace[filepath.Join(repo, dir, "zz_verif_weave.go")] = to
		}
	}
	b, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	check(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
	fmt.Println(site)
}

// weave puts the calls in; all on the lines that are there, so that positions stay.
func weave(file string, src []byte, site *int) ([]byte, string) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.SkipObjectResolution)
	check(err)
	var at []int
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				at = append(at, fset.PositionFor(s.Pos(), false).Offset)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		}
		return true
	})
	sort.Ints(at)
	var out []byte
	last := 0
	for i, o := range at {
		if i > 0 && o == at[i-1] {
			continue
		}
		out = append(out, src[last:o]...)
		out = append(out, fmt.Sprintf("verifWeave(%d);", *site)...)
		*site++
		last = o
	}
	return append(out, src[last:]...), f.Name.Name
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
