package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Instrumentation of source text: insertions at byte offsets, so that comments, directives and line
// numbers stay as they are.
type edit struct {
	at, del int
	text    string
	ord     int
}

type edits struct{ l []edit }

func (e *edits) ins(at int, text string)    { e.l = append(e.l, edit{at, 0, text, len(e.l)}) }
func (e *edits) rep(at, n int, text string) { e.l = append(e.l, edit{at, n, text, len(e.l)}) }
func (e *edits) apply(src []byte) []byte {
	sort.SliceStable(e.l, func(i, j int) bool {
		if e.l[i].at != e.l[j].at {
			return e.l[i].at < e.l[j].at
		}
		return e.l[i].ord < e.l[j].ord
	})
	var b bytes.Buffer
	pos := 0
	for _, x := range e.l {
		b.Write(src[pos:x.at])
		b.WriteString(x.text)
		pos = x.at + x.del
	}
	b.Write(src[pos:])
	return b.Bytes()
}

var shims = map[string]string{"sync": "verif/conc/vsync", "sync/atomic": "verif/conc/vatomic", "maps": "verif/conc/vmaps"}

type mode struct {
	shimSync, shimAtomic bool
	statements           bool // a point before every statement that may touch shared memory
	entries              bool // a point at the entry of every exported method
}

// instrument rewrites one file. info may be nil: then map ranges stay as they are.
func instrument(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, m mode) ([]byte, int) {
	var e edits
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	points := 0
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to, ok := shims[p]
		if !ok || (p == "sync" && !m.shimSync) || (p != "sync" && !m.shimAtomic) {
			continue
		}
		t := strconv.Quote(to)
		if im.Name == nil {
			t = filepath.Base(p) + " " + t
		}
		e.rep(off(im.Path.Pos()), len(im.Path.Value), t)
	}
	e.ins(off(f.Name.End()), `; import vsched__ "verif/conc/vsched"`)
	point := func(s ast.Stmt) {
		if touches(s) {
			points++
			e.ins(off(s.Pos()), "vsched__.P(); ")
		}
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			point(s)
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if ok && fd.Body != nil && m.entries && fd.Recv != nil && fd.Name.IsExported() {
			points++
			e.ins(off(fd.Body.Lbrace)+1, "vsched__.S(); ")
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if m.statements {
				list(n.List)
			}
		case *ast.CaseClause:
			if m.statements {
				list(n.Body)
			}
		case *ast.CommClause:
			if m.statements {
				list(n.Body)
			}
		case *ast.RangeStmt:
			if info != nil {
				if t := info.TypeOf(n.X); t != nil && isMap(t) {
					e.ins(off(n.X.Pos()), "vsched__.Range(")
					e.ins(off(n.X.End()), ")")
				}
			}
		case *ast.GoStmt:
			e.rep(off(n.Go), 2, "vsched__.Go(func() {")
			e.ins(off(n.End()), " })")
		}
		return true
	})
	out := e.apply(src)
	out = append(out, []byte("\nvar _ = vsched__.P\n")...)
	return out, points
}

func isMap(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Interface: // a type parameter whose core type is a map
		if tp, ok := t.(*types.TypeParam); ok {
			_ = u
			c, ok := tp.Constraint().Underlying().(*types.Interface)
			if !ok || c.NumEmbeddeds() != 1 {
				return false
			}
			un, ok := c.EmbeddedType(0).(*types.Union)
			if !ok || un.Len() != 1 {
				return false
			}
			_, ok = un.Term(0).Type().Underlying().(*types.Map)
			return ok
		}
	}
	return false
}

// touches tells whether executing the head of the statement (not the blocks inside it, which get
// their own points) may read or write memory shared with other threads or call something.
func touches(s ast.Stmt) bool {
	var roots []ast.Node
	switch s := s.(type) {
	case *ast.BlockStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
		return false
	case *ast.IfStmt:
		for e := s; e != nil; {
			roots = append(roots, e.Init, e.Cond)
			n, ok := e.Else.(*ast.IfStmt)
			if !ok {
				break
			}
			e = n
		}
	case *ast.ForStmt:
		roots = append(roots, s.Init, s.Cond, s.Post)
	case *ast.RangeStmt:
		roots = append(roots, s.X)
	case *ast.SwitchStmt:
		roots = append(roots, s.Init, s.Tag)
		for _, c := range s.Body.List {
			for _, x := range c.(*ast.CaseClause).List {
				roots = append(roots, x)
			}
		}
	case *ast.TypeSwitchStmt:
		roots = append(roots, s.Init, s.Assign)
	case *ast.LabeledStmt:
		return touches(s.Stmt)
	default:
		roots = append(roots, s)
	}
	found := false
	for _, r := range roots {
		if r == nil {
			continue
		}
		if v, ok := r.(ast.Stmt); ok && v == nil {
			continue
		}
		inspect(r, &found)
	}
	return found
}

var builtins = map[string]bool{"len": true, "cap": true, "make": true, "new": true, "append": true, "string": true, "any": true, "panic": true}

func inspect(n ast.Node, found *bool) {
	defer func() {
		if recover() != nil { // a typed nil inside an interface
			return
		}
	}()
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SendStmt, *ast.SelectStmt:
			*found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				*found = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); !ok || !builtins[id.Name] {
				*found = true
			}
		}
		return !*found
	})
}

func copyFile(dst, src string) error {
	b, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0o755)
	return os.WriteFile(dst, b, 0o644)
}

func run(dir, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir = dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return out.String(), fmt.Errorf("%s %s: %v\n%s", name, strings.Join(args, " "), err, errb.String())
	}
	return out.String(), nil
}

type pkg struct {
	dir   string
	files []string
}

// instrumentTree writes an instrumented copy of the module in repo to dst; plain leaves out the
// points before statements. xsync is copied with its locks made cooperative and its seeds fixed.
func instrumentTree(repo, dst, xdst string, plain bool) (points int, err error) {
	modfile, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return 0, err
	}
	var mod []string
	for _, l := range strings.Split(string(modfile), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
			l = "go 1.24" // the instrumented copy ranges over functions
		}
		if strings.HasPrefix(l, "toolchain ") {
			continue
		}
		mod = append(mod, l)
	}
	os.MkdirAll(dst, 0o755)
	if err := os.WriteFile(filepath.Join(dst, "go.mod"), []byte(strings.Join(mod, "\n")), 0o644); err != nil {
		return 0, err
	}
	out, err := run(repo, "go", "list", "-e", "-export", "-deps", "-f", `{{.ImportPath}}|{{.Export}}|{{.Dir}}|{{if .Module}}{{.Module.Path}}{{end}}|{{join .GoFiles ","}}`, ".", "./v2", "./trie", "./utils", "./ds")
	if err != nil {
		return 0, err
	}
	export := map[string]string{}
	var order []string
	pkgs := map[string]pkg{}
	module := strings.Fields(strings.SplitN(string(modfile), "\n", 2)[0])[1]
	for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
		f := strings.Split(l, "|")
		if len(f) != 5 {
			continue
		}
		export[f[0]] = f[1]
		if f[3] == module {
			order = append(order, f[0])
			pkgs[f[0]] = pkg{f[2], strings.Split(f[4], ",")}
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if export[path] == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(export[path])
	})
	for _, p := range order {
		pk := pkgs[p]
		rel, _ := filepath.Rel(repo, pk.dir)
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, n := range pk.files {
			src, err := os.ReadFile(filepath.Join(pk.dir, n))
			if err != nil {
				return 0, err
			}
			f, err := parser.ParseFile(fset, filepath.Join(pk.dir, n), src, parser.ParseComments)
			if err != nil {
				return 0, err
			}
			files, names, srcs = append(files, f), append(names, n), append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		conf.Check(p, fset, files, info)
		m := mode{shimSync: true, shimAtomic: true, statements: !plain, entries: false}
		if rel == "utils" || rel == "ds" {
			m.statements = false // helpers without shared state of their own; their locks still are points
		}
		for i, f := range files {
			b, n := instrument(fset, f, srcs[i], info, m)
			points += n
			to := filepath.Join(dst, rel, names[i])
			os.MkdirAll(filepath.Dir(to), 0o755)
			if err := os.WriteFile(to, b, 0o644); err != nil {
				return 0, err
			}
		}
	}
	// xsync
	out, err = run(repo, "go", "list", "-m", "-f", "{{.Dir}}", "github.com/oarkflow/xsync")
	if err != nil {
		return points, nil // no longer used
	}
	xdir := strings.TrimSpace(out)
	os.MkdirAll(xdst, 0o755)
	if err := copyFile(filepath.Join(xdst, "go.mod"), filepath.Join(xdir, "go.mod")); err != nil {
		return 0, err
	}
	ents, _ := os.ReadDir(xdir)
	for _, en := range ents {
		n := en.Name()
		if en.IsDir() || strings.HasSuffix(n, "_test.go") || !(strings.HasSuffix(n, ".go") || strings.HasSuffix(n, ".s")) {
			continue
		}
		if strings.HasSuffix(n, ".s") {
			copyFile(filepath.Join(xdst, n), filepath.Join(xdir, n))
			continue
		}
		src, err := os.ReadFile(filepath.Join(xdir, n))
		if err != nil {
			return 0, err
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, n, src, parser.ParseComments)
		if err != nil {
			return 0, err
		}
		b, k := instrument(fs, f, src, nil, mode{shimSync: true, entries: strings.HasPrefix(n, "mapof")})
		points += k
		for _, r := range [][2]string{
			{"seed:    makeSeed(),", "seed:    1,"},
			{"var zero T\n", "if true { return func(value T, seed uint64) uint64 { return vsched__.Hash(any(value)) } }; var zero T\n"},
			{"// Call the function for all copied entries.", "if len(bentries) > 0 { vsched__.S() }"},
			{"defaultMinMapTableLen = 32", "defaultMinMapTableLen = 4"},
			{"minMapCounterLen = 8", "minMapCounterLen = 1"},
			{`"verif/conc/vsync"`, `"verif/conc/vquiet"`},
		} {
			b = bytes.Replace(b, []byte(r[0]), []byte(r[1]), -1)
		}
		if err := os.WriteFile(filepath.Join(xdst, n), b, 0o644); err != nil {
			return 0, err
		}
	}
	return points, nil
}
