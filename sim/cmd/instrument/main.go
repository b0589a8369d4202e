// instrument reads the Go files of the repository's working tree, inserts a
// yield point before every statement and redirects the packages behind which
// nondeterminism hides to their simulated stand-ins. It writes the changed
// files and the overlay for "go build -overlay" under the output directory;
// the repository itself is not touched.
// usage: instrument [-plain] <repo> <out dir>
// -plain: only yield points and imports, for code the rest cannot cope with.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var shims = map[string][2]string{
	"os":                               {"os", "verif.local/sim/shim/simos"},
	"time":                             {"time", "verif.local/sim/shim/simtime"},
	"math/rand":                        {"rand", "verif.local/sim/shim/simrand"},
	"math/rand/v2":                     {"rand", "verif.local/sim/shim/simrandv2"},
	"fmt":                              {"fmt", "verif.local/sim/shim/simfmt"},
	"sync":                             {"sync", "verif.local/sim/shim/simsync"},
	"runtime":                          {"runtime", "verif.local/sim/shim/simruntime"},
	"io/ioutil":                        {"ioutil", "verif.local/sim/shim/simioutil"},
	"golang.org/x/crypto/ssh/terminal": {"terminal", "verif.local/sim/shim/simterm"},
	"golang.org/x/term":                {"term", "verif.local/sim/shim/simterm"},
}

type edit struct {
	pos, end int // byte offsets replaced
	text     string
	first    bool // goes before other edits at the same place
}

var plain bool

type stats struct{ Files, Yields, Imports, Gos int }

func main() {
	if os.Args[1] == "-plain" {
		plain = true
		os.Args = os.Args[1:]
	}
	repo, out := os.Args[1], os.Args[2]
	if err := os.MkdirAll(out, 0o755); err != nil {
		fail(err)
	}
	repl := map[string]string{}
	var st stats
	err := filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		dst := filepath.Join(out, "ov", strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := file(p, dst, &st); err != nil {
			return fmt.Errorf("%s: %w", p, err)
		}
		repl[p] = dst
		return nil
	})
	if err != nil {
		fail(err)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fail(err)
	}
	b, _ = json.Marshal(st)
	os.WriteFile(filepath.Join(out, "instrument.json"), b, 0o644)
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, "instrument:", err)
	os.Exit(2)
}

func file(p, dst string, st *stats) error {
	src, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
	if err != nil {
		return err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ed []edit
	st.Files++
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		s, ok := shims[path]
		if !ok {
			continue
		}
		st.Imports++
		t := strconv.Quote(s[1])
		if im.Name == nil {
			t = s[0] + " " + t
		}
		ed = append(ed, edit{pos: off(im.Path.Pos()), end: off(im.Path.End()), text: t})
	}
	yields := 0
	y := func(pos token.Pos) {
		yields++
		ed = append(ed, edit{pos: off(pos), end: off(pos), text: "zzvsim.Y(); "})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			y(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n == nil {
				return true
			}
			list(n.List)
		case *ast.SwitchStmt:
			// the body holds clauses, not statements
			clauses(n.Body, list)
		case *ast.CaseClause:
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				ed = append(ed, edit{pos: off(n.Body.Lbrace) + 1, end: off(n.Body.Lbrace) + 1, text: " zzvsim.Y(); "})
				yields++
			}
		case *ast.GoStmt:
			st.Gos++
			// go f(a, b)  =>  { args evaluated now } zzvsim.Go(func() { f(a, b) })
			goStmt(src, off, n, &ed)
		}
		return true
	})
	// clause bodies were visited as BlockStmt lists of clauses: drop the
	// yields that would stand in front of a clause
	bad := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch n := n.(type) {
		case *ast.SwitchStmt:
			b = n.Body
		case *ast.TypeSwitchStmt:
			b = n.Body
		case *ast.SelectStmt:
			b = n.Body
		}
		if b != nil {
			for _, c := range b.List {
				bad[off(c.Pos())] = true
			}
		}
		switch n := n.(type) {
		case *ast.TypeSwitchStmt:
			clauses(n.Body, list)
		case *ast.SelectStmt:
			clauses(n.Body, list)
		}
		return true
	})
	var keep []edit
	for _, e := range ed {
		if e.text == "zzvsim.Y(); " && bad[e.pos] {
			yields--
			continue
		}
		keep = append(keep, e)
	}
	st.Yields += yields
	if !plain {
		channels(f, src, off, &keep)
		maps(f, pkg(filepath.Dir(p)), src, off, &keep)
		globals(p, f, pkg(filepath.Dir(p)), src, off, &keep)
	}
	if yields > 0 || hasGo(keep) {
		keep = append(keep, edit{pos: off(f.Name.End()), end: off(f.Name.End()), text: `; import zzvsim "verif.local/sim/vsim"`})
	}
	sort.SliceStable(keep, func(i, j int) bool {
		a, b := keep[i], keep[j]
		return a.pos < b.pos || a.pos == b.pos && a.first && !b.first
	})
	var b strings.Builder
	last := 0
	for _, e := range keep {
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:])
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, []byte(b.String()), 0o644)
}

func hasGo(ed []edit) bool {
	for _, e := range ed {
		if strings.Contains(e.text, "zzvsim.") {
			return true
		}
	}
	return false
}

func clauses(b *ast.BlockStmt, list func([]ast.Stmt)) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			list(c.Body)
		case *ast.CommClause:
			list(c.Body)
		}
	}
}

// goStmt turns a go statement into a task of the simulator. Function and
// arguments are evaluated where the statement stands, as in Go.
func goStmt(src []byte, off func(token.Pos) int, n *ast.GoStmt, ed *[]edit) {
	c := n.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		// go func() { ... }()  =>  zzvsim.Go(func() { ... })
		*ed = append(*ed, edit{pos: off(n.Pos()), end: off(fl.Pos()), text: "zzvsim.Go("})
		*ed = append(*ed, edit{pos: off(c.Lparen), end: off(c.Rparen) + 1, text: ")"})
		return
	}
	var names []string
	*ed = append(*ed, edit{pos: off(n.Pos()), end: off(c.Fun.Pos()), text: "{ zzf := "})
	for i := range c.Args {
		names = append(names, fmt.Sprintf("zza%d", i))
	}
	if len(names) == 0 {
		*ed = append(*ed, edit{pos: off(c.Lparen), end: off(c.Rparen) + 1, text: "; zzvsim.Go(func() { zzf() }) }"})
		return
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	*ed = append(*ed, edit{pos: off(c.Lparen), end: off(c.Args[0].Pos()), text: "; " + strings.Join(names, ", ") + " := "})
	*ed = append(*ed, edit{pos: off(c.Args[len(c.Args)-1].End()), end: off(c.Rparen) + 1,
		text: "; zzvsim.Go(func() { zzf(" + strings.Join(names, ", ") + dots + ") }) }"})
}

// channels redirects channel operations to the simulator. There is no type
// information here: a range statement is over a channel if its operand bears a
// name that the file declares as a channel.
func channels(f *ast.File, src []byte, off func(token.Pos) int, ed *[]edit) {
	names := map[string]bool{}
	isChan := func(e ast.Expr) bool { _, ok := e.(*ast.ChanType); return ok }
	makesChan := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return false
		}
		id, ok := c.Fun.(*ast.Ident)
		return ok && id.Name == "make" && isChan(c.Args[0])
	}
	last := func(e ast.Expr) string {
		switch e := e.(type) {
		case *ast.Ident:
			return e.Name
		case *ast.SelectorExpr:
			return e.Sel.Name
		}
		return ""
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Field:
			if isChan(n.Type) {
				for _, x := range n.Names {
					names[x.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, x := range n.Names {
				if isChan(n.Type) || i < len(n.Values) && makesChan(n.Values[i]) {
					names[x.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, x := range n.Lhs {
				if i < len(n.Rhs) && makesChan(n.Rhs[i]) {
					names[last(x)] = true
				}
			}
		}
		return true
	})
	delete(names, "")
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	recv := func(e ast.Expr) *ast.UnaryExpr {
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	two := map[*ast.UnaryExpr]bool{}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recv(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recv(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.SendStmt:
			*ed = append(*ed, edit{pos: off(n.Pos()), end: off(n.Pos()), text: "zzvsim.Send("},
				edit{pos: off(n.Chan.End()), end: off(n.Value.Pos()), text: ")("},
				edit{pos: off(n.Value.End()), end: off(n.Value.End()), text: ")", first: true})
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "zzvsim.Recv("
				if two[n] {
					fn = "zzvsim.Recv2("
				}
				*ed = append(*ed, edit{pos: off(n.Pos()), end: off(n.X.Pos()), text: fn},
					edit{pos: off(n.X.End()), end: off(n.X.End()), text: ")", first: true})
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" && len(n.Args) == 1 {
				*ed = append(*ed, edit{pos: off(id.Pos()), end: off(id.End()), text: "zzvsim.Close"})
			}
		case *ast.RangeStmt:
			if !names[last(n.X)] || n.Value != nil {
				return true
			}
			h := "_, zzok := "
			if n.Key != nil {
				h = text(n.Key) + ", zzok " + n.Tok.String() + " "
				if n.Tok == token.ASSIGN {
					h = "var zzok bool; " + h
				}
			}
			*ed = append(*ed, edit{pos: off(n.For), end: off(n.Body.Lbrace) + 1,
				text: "for { " + h + "zzvsim.Recv2(" + text(n.X) + "); if !zzok { break }; "})
			ast.Inspect(n.Body, visit)
			return false
		case *ast.SelectStmt:
			var vars, vals, cases []string
			def := false
			for i, c := range n.Body.List {
				c := c.(*ast.CommClause)
				v := fmt.Sprintf("zzs%d", i)
				t := ""
				switch m := c.Comm.(type) {
				case nil:
					def = true
					continue
				case *ast.SendStmt:
					vals = append(vals, text(m.Chan))
					cases = append(cases, "zzvsim.W("+v+")")
					t = "zzvsim.Send(" + v + ")(" + text(m.Value) + ")"
				case *ast.ExprStmt:
					u := recv(m.X)
					vals = append(vals, text(u.X))
					cases = append(cases, "zzvsim.R("+v+")")
					t = "zzvsim.Recv(" + v + ")"
				case *ast.AssignStmt:
					u := recv(m.Rhs[0])
					vals = append(vals, text(u.X))
					cases = append(cases, "zzvsim.R("+v+")")
					fn := "zzvsim.Recv("
					l := text(m.Lhs[0])
					if len(m.Lhs) == 2 {
						fn = "zzvsim.Recv2("
						l += ", " + text(m.Lhs[1])
					}
					t = l + " " + m.Tok.String() + " " + fn + v + ")"
				}
				vars = append(vars, v)
				*ed = append(*ed, edit{pos: off(c.Case), end: off(c.Colon) + 1, text: fmt.Sprintf("case %d: %s; ", len(cases)-1, t)})
			}
			h := "switch "
			if len(vars) > 0 {
				h += strings.Join(vars, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			h += fmt.Sprintf("zzvsim.Select(%s) {", strings.Join(append([]string{fmt.Sprint(def)}, cases...), ", "))
			*ed = append(*ed, edit{pos: off(n.Select), end: off(n.Body.Lbrace) + 1, text: h})
			if !def {
				*ed = append(*ed, edit{pos: off(n.Body.Rbrace), end: off(n.Body.Rbrace), text: "; default: panic(\"unreachable\"); "})
			}
			for _, c := range n.Body.List {
				for _, b := range c.(*ast.CommClause).Body {
					ast.Inspect(b, visit)
				}
			}
			return false
		}
		return true
	}
	ast.Inspect(f, visit)
}

// pkgInfo is what is known of a package from its declarations alone.
type pkgInfo struct {
	vars map[string]bool // package-level variables
	maps map[string]bool // names declared as maps somewhere

	specs []*spec // package-level variables in the order of initialisation
	inits []initFn
	first string // the file that registers the reset
}

type initFn struct {
	file string
	pos  token.Pos
}

var pkgs = map[string]*pkgInfo{}

func pkg(dir string) *pkgInfo {
	if p := pkgs[dir]; p != nil {
		return p
	}
	p := &pkgInfo{vars: map[string]bool{}, maps: map[string]bool{}}
	pkgs[dir] = p
	isMap := func(e ast.Expr) bool { _, ok := e.(*ast.MapType); return ok }
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, n := range fs {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, x := range s.(*ast.ValueSpec).Names {
						p.vars[x.Name] = true
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if x, ok := n.(*ast.Field); ok && isMap(x.Type) {
				for _, y := range x.Names {
					p.maps[y.Name] = true
				}
			}
			return true
		})
	}
	delete(p.vars, "_")
	p.order(fs)
	return p
}

// spec is one package-level variable declaration.
type spec struct {
	file  string
	pos   token.Pos // start within its file
	names []string
	vals  []ast.Expr
	typ   ast.Expr
	skip  bool
}

// order finds the order in which the variables of a package are initialised:
// by declaration, but after those they depend on.
func (p *pkgInfo) order(files []string) {
	sort.Strings(files)
	funcs := map[string][]ast.Node{}
	var all []*spec
	owner := map[string]*spec{}
	for _, n := range files {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, n, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					p.inits = append(p.inits, initFn{n, d.Name.Pos()})
					continue
				}
				if d.Body != nil {
					funcs[d.Name.Name] = append(funcs[d.Name.Name], d.Body)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					x := &spec{file: n, pos: v.Pos(), vals: v.Values, typ: v.Type}
					for _, c := range []*ast.CommentGroup{d.Doc, v.Doc} {
						if c != nil {
							for _, l := range c.List {
								if strings.HasPrefix(l.Text, "//go:") {
									x.skip = true
								}
							}
						}
					}
					for _, y := range v.Names {
						x.names = append(x.names, y.Name)
						if y.Name != "_" {
							owner[y.Name] = x
						}
					}
					all = append(all, x)
				}
			}
		}
	}
	deps := func(x *spec) map[*spec]bool {
		got := map[*spec]bool{}
		seen := map[string]bool{}
		var look func(n ast.Node)
		name := func(s string) {
			if o := owner[s]; o != nil && o != x {
				got[o] = true
			}
			if !seen[s] {
				seen[s] = true
				for _, b := range funcs[s] {
					look(b)
				}
			}
		}
		look = func(n ast.Node) {
			ast.Inspect(n, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.Ident:
					name(n.Name)
				case *ast.SelectorExpr:
					name(n.Sel.Name)
				}
				return true
			})
		}
		for _, v := range x.vals {
			look(v)
		}
		return got
	}
	dep := map[*spec]map[*spec]bool{}
	for _, x := range all {
		dep[x] = deps(x)
	}
	done := map[*spec]bool{}
	for len(done) < len(all) {
		var next *spec
		for _, x := range all {
			if done[x] {
				continue
			}
			ok := true
			for d := range dep[x] {
				if !done[d] {
					ok = false
				}
			}
			if ok {
				next = x
				break
			}
		}
		if next == nil { // names alone mislead here: take the first
			for _, x := range all {
				if !done[x] {
					next = x
					break
				}
			}
		}
		done[next] = true
		p.specs = append(p.specs, next)
	}
}

// globals makes package-level variables and init functions repeatable, so that
// the simulator can start a process anew.
func globals(path string, f *ast.File, p *pkgInfo, src []byte, off func(token.Pos) int, ed *[]edit) {
	if len(p.specs) == 0 && len(p.inits) == 0 {
		return
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	at := len(src)
	add := func(s string) { *ed = append(*ed, edit{pos: at, end: at, text: s}) }
	var calls, roots []string
	for i, x := range p.specs {
		keep := false
		for _, n := range x.names {
			keep = keep || n != "_"
		}
		if x.skip || !keep {
			continue
		}
		calls = append(calls, fmt.Sprintf("zzvar%d()", i))
		for _, n := range x.names {
			if n != "_" {
				roots = append(roots, "&"+n)
			}
		}
		if x.file != path {
			continue
		}
		// the same declaration in this parse
		var v *ast.ValueSpec
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					y := s.(*ast.ValueSpec)
					if len(y.Names) == len(x.names) && y.Names[0].Name == x.names[0] {
						same := true
						for k := range x.names {
							same = same && y.Names[k].Name == x.names[k]
						}
						if same {
							v = y
						}
					}
				}
			}
		}
		if v == nil {
			add(fmt.Sprintf("\nfunc zzvar%d() {}\n", i))
			continue
		}
		b := ""
		if len(v.Values) == 0 {
			for _, n := range x.names {
				if n != "_" {
					b += "; " + n + " = *new(" + text(v.Type) + ")"
				}
			}
			b = strings.TrimPrefix(b, "; ")
		} else {
			var vals []string
			for _, e := range v.Values {
				vals = append(vals, text(e))
			}
			b = strings.Join(x.names, ", ") + " = " + strings.Join(vals, ", ")
		}
		add(fmt.Sprintf("\nfunc zzvar%d() { %s }\n", i, b))
	}
	k := 0
	for i, n := range p.inits {
		calls = append(calls, fmt.Sprintf("zzinit%d()", i))
		if n.file != path {
			continue
		}
		j := 0
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				if j == k {
					*ed = append(*ed, edit{pos: off(fd.Name.Pos()), end: off(fd.Name.End()), text: fmt.Sprintf("zzinit%d", i)})
					add(fmt.Sprintf("\nfunc init() { zzinit%d() }\n", i))
				}
				j++
			}
		}
		k++
	}
	if p.first == "" {
		p.first = path
		if len(roots) > 0 {
			add("\nfunc init() { zzvsim.Root(" + strings.Join(roots, ", ") + ") }\n")
		}
		add("\nfunc init() { zzvsim.OnReset(func() { " + strings.Join(calls, "; ") + " }) }\n")
	}
}

// maps marks the use of maps that callers may share (reached from package-level
// variables, receivers and parameters), so that the simulator can do what Go
// does when a map is used while it is being written: end the program.
func maps(f *ast.File, p *pkgInfo, src []byte, off func(token.Pos) int, ed *[]edit) {
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		own := map[string]bool{} // receiver and parameters
		for _, fl := range []*ast.FieldList{fd.Recv, fd.Type.Params} {
			if fl != nil {
				for _, x := range fl.List {
					for _, n := range x.Names {
						own[n.Name] = true
					}
				}
			}
		}
		inner := map[string]bool{} // declared inside
		note := func(e ast.Expr) {
			if id, ok := e.(*ast.Ident); ok {
				inner[id.Name] = true
			}
		}
		ast.Inspect(fd, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok == token.DEFINE {
					for _, e := range n.Lhs {
						note(e)
					}
				}
			case *ast.RangeStmt:
				if n.Tok == token.DEFINE {
					note(n.Key)
					note(n.Value)
				}
			case *ast.ValueSpec:
				for _, x := range n.Names {
					inner[x.Name] = true
				}
			case *ast.TypeSpec:
				inner[n.Name.Name] = true
			case *ast.FuncLit:
				for _, fl := range []*ast.FieldList{n.Type.Params, n.Type.Results} {
					if fl != nil {
						for _, x := range fl.List {
							for _, y := range x.Names {
								inner[y.Name] = true
							}
						}
					}
				}
			}
			return true
		})
		if fd.Type.Results != nil {
			for _, x := range fd.Type.Results.List {
				for _, y := range x.Names {
					inner[y.Name] = true
				}
			}
		}
		if fd.Type.TypeParams != nil {
			for _, x := range fd.Type.TypeParams.List {
				for _, y := range x.Names {
					inner[y.Name] = true
				}
			}
		}
		// base returns the text of a shared operand, "" if it is not one
		base := func(e ast.Expr) string {
			root, last, x := "", "", e
			for root == "" {
				switch y := x.(type) {
				case *ast.Ident:
					root = y.Name
					if last == "" {
						last = y.Name
					}
				case *ast.SelectorExpr:
					if last == "" {
						last = y.Sel.Name
					}
					x = y.X
				default:
					return ""
				}
			}
			if inner[root] {
				return ""
			}
			if own[root] && p.maps[last] || !own[root] && p.vars[root] {
				return string(src[off(e.Pos()):off(e.End())])
			}
			return ""
		}
		stmt := func(s ast.Stmt) {
			rd, wr := map[string]bool{}, map[string]bool{}
			if l, ok := s.(*ast.LabeledStmt); ok {
				s = l.Stmt
				_ = s
				return
			}
			write := func(e ast.Expr) {
				if x, ok := e.(*ast.IndexExpr); ok {
					if b := base(x.X); b != "" {
						wr[b] = true
					}
				}
			}
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause, *ast.DeferStmt, *ast.GoStmt:
					return false
				case *ast.AssignStmt:
					for _, e := range n.Lhs {
						write(e)
					}
				case *ast.IncDecStmt:
					write(n.X)
				case *ast.IndexExpr:
					if b := base(n.X); b != "" {
						rd[b] = true
					}
				case *ast.RangeStmt:
					if b := base(n.X); b != "" {
						rd[b] = true
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(n.Args) > 0 {
						if b := base(n.Args[0]); b != "" {
							wr[b] = true
						}
					}
				}
				return true
			})
			var t []string
			for b := range wr {
				t = append(t, "zzvsim.MapW(func() any { return "+b+" }); ")
			}
			for b := range rd {
				if !wr[b] {
					t = append(t, "zzvsim.MapR(func() any { return "+b+" }); ")
				}
			}
			sort.Strings(t)
			for _, x := range t {
				*ed = append(*ed, edit{pos: off(s.Pos()), end: off(s.Pos()), text: x, first: true})
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			var l []ast.Stmt
			switch n := n.(type) {
			case *ast.BlockStmt:
				l = n.List
			case *ast.CaseClause:
				l = n.Body
			case *ast.CommClause:
				l = n.Body
			}
			for _, s := range l {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
				default:
					stmt(s)
				}
			}
			return true
		})
	}
}
