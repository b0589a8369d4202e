// genshim writes forward.go for a shim package: every exported symbol of the
// original package that the shim does not define itself.
// usage: genshim <import path> <shim dir> <skip,comma,separated>
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	imp, dir := os.Args[1], os.Args[2]
	have := map[string]bool{}
	for _, s := range strings.Split(os.Args[3], ",") {
		have[s] = true
	}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if filepath.Base(f) == "forward.go" {
			continue
		}
		a, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(imp)
	if err != nil {
		panic(err)
	}
	var c, t, v []string
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		if !ast.IsExported(n) || have[n] {
			continue
		}
		switch o := pkg.Scope().Lookup(n).(type) {
		case *types.Const:
			c = append(c, n)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			t = append(t, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			v = append(v, n)
		case *types.Var:
			v = append(v, n)
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport orig %q\n\n", filepath.Base(dir), imp)
	w := func(kw, eq string, l []string) {
		if len(l) == 0 {
			return
		}
		fmt.Fprintf(&b, "%s (\n", kw)
		for _, n := range l {
			fmt.Fprintf(&b, "\t%s = orig.%s\n", n, n)
		}
		b.WriteString(")\n\n")
	}
	w("const", "", c)
	w("type", "", t)
	w("var", "", v)
	os.WriteFile(filepath.Join(dir, "forward.go"), []byte(b.String()), 0o644)
}
