// instr copies the packages of a Go module into a scratch directory, rewriting
// goroutines, channels, selects, map ranges and shared-memory accesses to calls
// of the model checker, and redirecting imports to shims.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const module = "github.com/sisu-network/dheart"
const mcPath = module + "/zzmc"

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Imports    []string
	Module     *struct{ Path string }
	Standard   bool
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func golist(dir string, args ...string) []*listPkg {
	cmd := exec.Command("go", append([]string{"list", "-json"}, args...)...)
	cmd.Dir = dir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		fatal("go list %v: %v\n%s", args, err, errb.String())
	}
	var res []*listPkg
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &listPkg{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode: %v", err)
		}
		res = append(res, p)
	}
	return res
}

type redirect struct {
	To       string   // import path of the shim
	Override string   // directory with overriding sources ("" = alias only)
	Only     []string // module package dirs the redirect applies to (empty = all)
	NoAlias  bool
}

type config struct {
	Packages  []string            // module-relative package dirs to instrument
	CopyOnly  []string            // copied without instrumentation
	Redirects map[string]redirect // real import path -> shim
}

var (
	repo, out, cfgFile, verif string
	fset                      = token.NewFileSet()
	exports                   = map[string]string{}
	checked                   = map[string]*types.Package{}
	gcimp                     types.Importer
	sites                     []string
	cfg                       config
)

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p := checked[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return gcimp.Import(path)
}

func main() {
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&cfgFile, "config", "", "")
	flag.StringVar(&verif, "verif", "/verif", "")
	flag.Parse()
	bz, err := ioutil.ReadFile(cfgFile)
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(bz, &cfg); err != nil {
		fatal("config: %v", err)
	}
	// package closure inside the module
	args := []string{"-deps"}
	for _, p := range cfg.Packages {
		args = append(args, "./"+p)
	}
	all := golist(repo, args...)
	var mods []*listPkg
	var ext []string
	for _, p := range all {
		if p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/") {
			mods = append(mods, p)
		} else if p.ImportPath != "unsafe" && p.ImportPath != "C" {
			ext = append(ext, p.ImportPath)
		}
	}
	for real := range cfg.Redirects {
		ext = append(ext, real)
	}
	for _, p := range golist(repo, append([]string{"-export", "-deps"}, ext...)...) {
		exports[p.ImportPath] = p.Export
	}
	gcimp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	copyOnly := map[string]bool{}
	for _, c := range cfg.CopyOnly {
		copyOnly[c] = true
	}
	for _, p := range mods {
		doPackage(p, copyOnly[strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, module), "/")])
	}
	// shims
	var reals []string
	for r := range cfg.Redirects {
		reals = append(reals, r)
	}
	sort.Strings(reals)
	done := map[string]bool{}
	for _, r := range reals {
		rd := cfg.Redirects[r]
		if done[rd.To] {
			continue
		}
		done[rd.To] = true
		genShim(r, rd)
	}
	// site table
	var b bytes.Buffer
	b.WriteString("package mc\n\nfunc init() {\n\tSiteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	write(filepath.Join(out, "zzmc", "zz_sites.go"), b.Bytes())
}

func write(path string, bz []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
		fatal("%v", err)
	}
	if err := ioutil.WriteFile(path, bz, 0644); err != nil {
		fatal("%v", err)
	}
}

// ------------------------------------------------------------------ shims

func genShim(real string, rd redirect) {
	dst := filepath.Join(out, strings.TrimPrefix(rd.To, module+"/"))
	declared := map[string]bool{}
	pkgName := ""
	if rd.Override != "" {
		files, err := filepath.Glob(filepath.Join(verif, rd.Override, "*.go"))
		if err != nil || len(files) == 0 {
			fatal("no override sources in %s", rd.Override)
		}
		for _, f := range files {
			src, err := ioutil.ReadFile(f)
			if err != nil {
				fatal("%v", err)
			}
			af, err := parser.ParseFile(token.NewFileSet(), f, src, 0)
			if err != nil {
				fatal("%v", err)
			}
			pkgName = af.Name.Name
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						declared[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							declared[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								declared[n.Name] = true
							}
						}
					}
				}
			}
			write(filepath.Join(dst, filepath.Base(f)), src)
		}
	}
	if rd.NoAlias {
		return
	}
	p, err := gcimp.Import(real)
	if err != nil {
		fatal("import %s: %v", real, err)
	}
	if pkgName == "" {
		pkgName = p.Name()
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport zzreal %q\n\n", pkgName, real)
	used := false
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || declared[n] {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if nm, ok := o.Type().(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = zzreal.%s\n", n, n)
		case *types.Const:
			fmt.Fprintf(&b, "const %s = zzreal.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
		default:
			continue
		}
		used = true
	}
	if used {
		write(filepath.Join(dst, "zz_alias.go"), b.Bytes())
	}
}

// ---------------------------------------------------------------- packages

func doPackage(p *listPkg, copyOnly bool) {
	rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, module), "/")
	dst := filepath.Join(out, rel)
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := ioutil.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
		srcs[af] = src
		names[af] = f
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp{}, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	checked[p.ImportPath] = tp
	for _, f := range files {
		if copyOnly || strings.HasSuffix(names[f], ".pb.go") {
			r := &rewriter{info: info, src: srcs[f], file: f, rel: rel, pkg: tp}
			r.redirects()
			write(filepath.Join(dst, names[f]), r.result())
			continue
		}
		r := &rewriter{info: info, src: srcs[f], file: f, rel: rel, pkg: tp, fname: filepath.Join(rel, names[f])}
		r.redirects()
		r.run()
		write(filepath.Join(dst, names[f]), r.result())
	}
	for _, e := range p.EmbedFiles {
		bz, err := ioutil.ReadFile(filepath.Join(p.Dir, e))
		if err != nil {
			fatal("%v", err)
		}
		write(filepath.Join(dst, e), bz)
	}
}

// ---------------------------------------------------------------- rewriting

type edit struct {
	pos, end int // replaced byte range (pos==end: insertion)
	text     string
	seq      int
	after    bool // insertion that belongs after text ending at pos
}

type rewriter struct {
	info   *types.Info
	src    []byte
	file   *ast.File
	rel    string
	fname  string
	pkg    *types.Package
	edits  []edit
	parent map[ast.Node]ast.Node
	n      int
	mcUsed bool
	skip   map[ast.Node]bool
	shared map[*types.Var]bool
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) ins(p token.Pos, s string, after bool) {
	r.edits = append(r.edits, edit{r.off(p), r.off(p), s, len(r.edits), after})
}

// wrap inserts pre before n and post after n; outer wraps must be added before inner ones.
func (r *rewriter) wrap(n ast.Node, pre, post string) {
	r.ins(n.Pos(), pre, false)
	r.ins(n.End(), post, true)
	r.mcUsed = true
}

func (r *rewriter) repl(a, b token.Pos, s string) {
	r.edits = append(r.edits, edit{r.off(a), r.off(b), s, len(r.edits), false})
}

// render returns the source of [a,b) with all edits recorded so far applied, and drops those edits.
func (r *rewriter) render(a, b token.Pos) string {
	lo, hi := r.off(a), r.off(b)
	var in, rest []edit
	for _, e := range r.edits {
		if e.pos >= lo && e.end <= hi {
			// boundary insertions belong to whoever wraps [a,b): inside if they were recorded for nodes within
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	r.edits = rest
	return apply(r.src, lo, hi, in)
}

func apply(src []byte, lo, hi int, es []edit) string {
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		ka, kb := kind(a), kind(b)
		if ka != kb {
			return ka < kb
		}
		if ka == 0 { // post insertions: inner (later recorded) first
			return a.seq > b.seq
		}
		return a.seq < b.seq // pre insertions: outer (earlier recorded) first
	})
	var b bytes.Buffer
	at := lo
	for _, e := range es {
		if e.pos < at {
			// nested inside an already replaced range
			continue
		}
		b.Write(src[at:e.pos])
		b.WriteString(e.text)
		at = e.end
	}
	b.Write(src[at:hi])
	return b.String()
}

// kind orders edits at the same position: closing insertions, opening insertions, replacements.
func kind(e edit) int {
	if e.pos == e.end {
		if e.after {
			return 0
		}
		return 1
	}
	return 2
}

func (r *rewriter) result() []byte {
	if r.mcUsed {
		r.ins(r.file.Name.End(), fmt.Sprintf("; import zzmc %q", mcPath), true)
	}
	s := apply(r.src, 0, len(r.src), r.edits)
	if r.mcUsed {
		s += "\n\nvar _ = zzmc.Now\n"
	}
	return []byte(s)
}

func (r *rewriter) redirects() {
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		rd, ok := cfg.Redirects[path]
		if !ok {
			continue
		}
		if len(rd.Only) > 0 {
			hit := false
			for _, o := range rd.Only {
				if o == r.rel {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		// keep the local name
		name := ""
		if im.Name == nil {
			if p, err := (imp{}).Import(path); err == nil {
				name = p.Name() + " "
			}
		}
		r.repl(im.Path.Pos(), im.Path.End(), name+strconv.Quote(rd.To))
	}
}

func (r *rewriter) site(what string, pos token.Pos) string {
	sites = append(sites, fmt.Sprintf("%s@%s:%d", what, r.fname, fset.Position(pos).Line))
	return strconv.Itoa(len(sites) - 1)
}

func (r *rewriter) run() {
	r.parent = map[ast.Node]ast.Node{}
	r.skip = map[ast.Node]bool{}
	var stack []ast.Node
	ast.Inspect(r.file, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			r.parent[n] = stack[len(stack)-1]
		}
		stack = append(stack, n)
		return true
	})
	r.findShared()
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			r.node(fd.Body)
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			// function literals in package variables
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					r.node(fl.Body)
					return false
				}
				return true
			})
		}
	}
}

// node records the edits of n and everything below, outer edits first.
func (r *rewriter) node(n ast.Node) {
	switch n := n.(type) {
	case nil:
		return
	case *ast.LabeledStmt:
		if s, ok := n.Stmt.(*ast.SelectStmt); ok {
			r.selectStmt(s, n.Label.Name+": ", n.Pos())
			return
		}
	case *ast.SelectStmt:
		r.selectStmt(n, "", n.Pos())
		return
	case *ast.GoStmt:
		r.goStmt(n)
		return
	case *ast.SendStmt:
		r.ins(n.Chan.Pos(), "zzmc.S(", false)
		r.repl(n.Arrow, n.Arrow+2, ").Send(")
		r.ins(n.Value.End(), ")", true)
		r.mcUsed = true
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			fn := "zzmc.Recv("
			switch p := r.parent[n].(type) {
			case *ast.AssignStmt:
				if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
					fn = "zzmc.Recv2("
				}
			case *ast.ValueSpec:
				if len(p.Names) == 2 && len(p.Values) == 1 {
					fn = "zzmc.Recv2("
				}
			}
			r.repl(n.OpPos, n.OpPos+2, fn)
			r.ins(n.X.End(), ")", true)
			r.mcUsed = true
		}
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && len(n.Args) > 0 {
				switch b.Name() {
				case "close":
					r.repl(id.Pos(), id.End(), "zzmc.Close")
					r.mcUsed = true
				case "delete":
					r.wrap(n.Args[0], "zzmc.MW(", ", "+r.site(r.what(n.Args[0]), n.Pos())+")")
				case "len":
					if r.isMap(n.Args[0]) {
						r.wrap(n.Args[0], "zzmc.MR(", ", "+r.site(r.what(n.Args[0]), n.Pos())+")")
					}
				}
			}
		}
	case *ast.IndexExpr:
		r.indexExpr(n)
	case *ast.SelectorExpr:
		r.fieldExpr(n)
		r.node(n.X) // the selected name is no variable
		return
	case *ast.Ident:
		r.varExpr(n)
		return
	case *ast.RangeStmt:
		r.rangeStmt(n)
		return
	}
	r.children(n)
}

func (r *rewriter) children(n ast.Node) {
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if _, ok := c.(ast.Node); ok {
			r.node(c)
		}
		return false
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (r *rewriter) isMap(e ast.Expr) bool {
	t := r.typeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// what names the storage an expression denotes, stable under reformatting.
func (r *rewriter) what(e ast.Expr) string {
	switch e := unparen(e).(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil {
			t := s.Recv()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			name := types.TypeString(t, func(p *types.Package) string { return p.Name() })
			return name + "." + e.Sel.Name
		}
		return e.Sel.Name
	case *ast.Ident:
		return r.pkg.Name() + ":" + e.Name
	case *ast.IndexExpr:
		return r.what(e.X) + "[]"
	}
	return r.pkg.Name() + ":expr"
}

// write/addr context of an expression
func (r *rewriter) context(e ast.Expr) (write, addr bool) {
	var n ast.Node = e
	p := r.parent[n]
	for {
		if pe, ok := p.(*ast.ParenExpr); ok {
			n = pe
			p = r.parent[pe]
			continue
		}
		break
	}
	switch p := p.(type) {
	case *ast.AssignStmt:
		if p.Tok == token.DEFINE {
			return false, false
		}
		for _, l := range p.Lhs {
			if l == n {
				return true, false
			}
		}
	case *ast.IncDecStmt:
		return p.X == n, false
	case *ast.UnaryExpr:
		if p.Op == token.AND {
			return false, true
		}
	case *ast.RangeStmt:
		if p.Key == n || p.Value == n {
			return true, true
		}
	}
	return false, false
}

func syncType(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic", "go.uber.org/atomic":
		return true
	}
	return false
}

func (r *rewriter) fieldExpr(n *ast.SelectorExpr) {
	s := r.info.Selections[n]
	if s == nil || s.Kind() != types.FieldVal {
		return
	}
	_, ptr := r.typeOf(n.X).(*types.Pointer)
	if !ptr && !s.Indirect() {
		return
	}
	if tv := r.typeOf(n); tv == nil || syncType(tv) {
		return
	}
	// part of a longer selection on the same struct value?
	var cur ast.Node = n
	par := r.parent[cur]
	for {
		if pe, ok := par.(*ast.ParenExpr); ok {
			cur = pe
			par = r.parent[pe]
			continue
		}
		break
	}
	if ps, ok := par.(*ast.SelectorExpr); ok && ps.X == cur {
		if sel := r.info.Selections[ps]; sel != nil {
			_, isPtr := r.typeOf(n).Underlying().(*types.Pointer)
			if !isPtr {
				if sel.Kind() == types.FieldVal {
					return // value struct field chain
				}
				if f, ok := sel.Obj().(*types.Func); ok {
					if rv := f.Type().(*types.Signature).Recv(); rv != nil {
						if _, pr := rv.Type().(*types.Pointer); pr {
							return // address taken for a pointer method
						}
					}
				}
			}
		}
	}
	w, a := r.context(n)
	if a {
		return
	}
	fn := "R"
	if w {
		fn = "W"
	}
	r.wrap(n, "(*zzmc."+fn+"(&", ", "+r.site(r.what(n), n.Pos())+"))")
}

// enclosing is the innermost function around n.
func (r *rewriter) enclosing(n ast.Node) ast.Node {
	for n = r.parent[n]; n != nil; n = r.parent[n] {
		switch n.(type) {
		case *ast.FuncLit, *ast.FuncDecl:
			return n
		}
	}
	return nil
}

// findShared finds the variables that are assigned after their declaration and used by several functions of the file.
func (r *rewriter) findShared() {
	r.shared = map[*types.Var]bool{}
	owner := map[*types.Var]ast.Node{}
	captured := map[*types.Var]bool{}
	assigned := map[*types.Var]bool{}
	for id, o := range r.info.Defs {
		if v, ok := o.(*types.Var); ok && !v.IsField() && r.parent[id] != nil {
			owner[v] = r.enclosing(id)
			// parameters belong to the function itself
			for p := r.parent[ast.Node(id)]; p != nil; p = r.parent[p] {
				if ft, ok := p.(*ast.FuncType); ok {
					if f := r.parent[ft]; f != nil {
						owner[v] = f
					}
					break
				}
				if _, ok := p.(*ast.BlockStmt); ok {
					break
				}
			}
		}
	}
	for id, o := range r.info.Uses {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || r.parent[id] == nil || v.Pkg() != r.pkg {
			continue
		}
		own, known := owner[v]
		if v.Parent() == r.pkg.Scope() {
			captured[v] = true
		} else if known && own != r.enclosing(id) {
			captured[v] = true
		}
		if w, _ := r.context(id); w {
			assigned[v] = true
		}
	}
	for v := range captured {
		if assigned[v] && !syncType(v.Type()) {
			r.shared[v] = true
		}
	}
}

// varExpr records the accesses of variables that several functions share.
func (r *rewriter) varExpr(n *ast.Ident) {
	v, ok := r.info.Uses[n].(*types.Var)
	if !ok || !r.shared[v] {
		return
	}
	switch p := r.parent[n].(type) {
	case *ast.AssignStmt:
		if p.Tok == token.DEFINE {
			for _, l := range p.Lhs {
				if l == ast.Expr(n) {
					return
				}
			}
		}
	case *ast.SelectorExpr:
		if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
			if _, itf := v.Type().Underlying().(*types.Interface); !itf {
				return // a part of a struct
			}
		}
	case *ast.KeyValueExpr, *ast.RangeStmt:
		return
	}
	w, a := r.context(n)
	if a {
		return
	}
	fn := "R"
	if w {
		fn = "W"
	}
	r.wrap(n, "(*zzmc."+fn+"(&", ", "+r.site(r.pkg.Name()+":"+n.Name, n.Pos())+"))")
}

func (r *rewriter) indexExpr(n *ast.IndexExpr) {
	t := r.typeOf(n.X)
	if t == nil {
		return
	}
	if tv, ok := r.info.Types[n.X]; ok && tv.IsType() {
		return
	}
	switch t.Underlying().(type) {
	case *types.Map:
		w, _ := r.context(n)
		fn := "MR"
		if w {
			fn = "MW"
		}
		r.wrap(n.X, "zzmc."+fn+"(", ", "+r.site(r.what(n.X), n.Pos())+")")
	case *types.Slice:
		w, a := r.context(n)
		if a {
			return
		}
		// selection through a struct element: leave
		if ps, ok := r.parent[n].(*ast.SelectorExpr); ok && ps.X == n {
			if _, isPtr := r.typeOf(n).Underlying().(*types.Pointer); !isPtr {
				if _, isIf := r.typeOf(n).Underlying().(*types.Interface); !isIf {
					return
				}
			}
		}
		fn := "R"
		if w {
			fn = "W"
		}
		r.wrap(n, "(*zzmc."+fn+"(&", ", "+r.site(r.what(n.X)+"[]", n.Pos())+"))")
	}
}

func (r *rewriter) goStmt(n *ast.GoStmt) {
	r.mcUsed = true
	c := n.Call
	sig, _ := r.typeOf(c.Fun).(*types.Signature)
	if sig == nil {
		if t := r.typeOf(c.Fun); t != nil {
			sig, _ = t.Underlying().(*types.Signature)
		}
	}
	isBuiltin := false
	if id, ok := unparen(c.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			isBuiltin = true
		}
	}
	if tv, ok := r.info.Types[c.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
		isBuiltin = true
	}
	multi := false // f(g()) with multi-value g
	if sig != nil && len(c.Args) != sig.Params().Len() {
		multi = true
	}
	if sig == nil || isBuiltin || sig.Variadic() || multi || sig.Params().Len() > 5 || sig.Results().Len() > 2 ||
		(sig.Results().Len() == 1 && sig.Params().Len() > 4) || (sig.Results().Len() == 2 && sig.Params().Len() > 3) {
		r.repl(n.Go, c.Pos(), "zzmc.Go(func() { ")
		r.ins(c.End(), " })", true)
		r.node(c)
		return
	}
	k := len(c.Args)
	fn := fmt.Sprintf("zzmc.G%d(", k)
	if m := sig.Results().Len(); m > 0 {
		fn = fmt.Sprintf("zzmc.R%d_%d(", m, k)
	}
	r.repl(n.Go, c.Pos(), fn)
	r.repl(c.Lparen, c.Lparen+1, ").Go(")
	r.node(c.Fun)
	for _, a := range c.Args {
		r.node(a)
	}
}

func (r *rewriter) rangeStmt(n *ast.RangeStmt) {
	t := r.typeOf(n.X)
	if t == nil {
		r.children(n)
		return
	}
	switch t.Underlying().(type) {
	case *types.Map:
		r.iterate(n, "MapIter")
	case *types.Slice:
		v, ok := n.Value.(*ast.Ident)
		if !ok || v.Name == "_" {
			r.children(n)
			return
		}
		if k, ok := n.Key.(*ast.Ident); !ok || k == nil {
			r.children(n)
			return
		}
		if b, ok := t.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r.children(n)
			return
		}
		r.iterate(n, "SliceIter")
	case *types.Chan:
		r.mcUsed = true
		r.n++
		ok := fmt.Sprintf("zzok%d", r.n)
		r.node(n.X)
		x := r.render(n.X.Pos(), n.X.End())
		v := "_"
		decl := ":="
		pre := ""
		if n.Key != nil {
			v = r.exprSrc(n.Key)
			if n.Tok == token.ASSIGN && v != "_" {
				decl = "="
				pre = "var " + ok + " bool; "
			}
		}
		r.repl(n.For, n.Body.Lbrace+1, fmt.Sprintf("for { %s%s, %s %s zzmc.Recv2(%s); if !%s { break }; ", pre, v, ok, decl, x, ok))
		r.children(n.Body)
	default:
		r.children(n)
	}
}

// iterate rewrites a range statement into one over an iterator; its variables stay shared by the iterations.
func (r *rewriter) iterate(n *ast.RangeStmt, fn string) {
	r.mcUsed = true
	r.n++
	r.node(n.X)
	x := r.render(n.X.Pos(), n.X.End())
	decl := [2]string{fmt.Sprintf("zzk%d", r.n), fmt.Sprintf("zzv%d", r.n)}
	use := decl
	for i, e := range []ast.Expr{n.Key, n.Value} {
		if e == nil {
			continue
		}
		src := r.exprSrc(e)
		if src == "_" {
			continue
		}
		use[i] = src
		if n.Tok == token.DEFINE {
			decl[i] = src
		} else {
			decl[i] = "_"
		}
	}
	it := fmt.Sprintf("zzit%d", r.n)
	site := r.site(r.what(n.X), n.Pos())
	r.repl(n.For, n.Body.Lbrace+1, fmt.Sprintf("for %s, %s, %s := zzmc.%s(%s, %s); %s.Next(&%s, &%s); { ", decl[0], decl[1], it, fn, x, site, it, use[0], use[1]))
	r.children(n.Body)
}

func (r *rewriter) exprSrc(e ast.Expr) string {
	return string(r.src[r.off(e.Pos()):r.off(e.End())])
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label string, start token.Pos) {
	r.mcUsed = true
	r.n++
	s := fmt.Sprintf("zzs%d", r.n)
	hasDef := false
	for _, c := range n.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	var pro strings.Builder
	fmt.Fprintf(&pro, "{ %s := zzmc.NewSelect(%v); ", s, hasDef)
	idx := 0
	nc := len(n.Body.List)
	for ci, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		head := ""
		bind := ""
		switch comm := cc.Comm.(type) {
		case nil:
			head = "default:"
		case *ast.SendStmt:
			r.node(comm.Chan)
			ch := r.render(comm.Chan.Pos(), comm.Chan.End())
			r.node(comm.Value)
			v := r.render(comm.Value.Pos(), comm.Value.End())
			fmt.Fprintf(&pro, "zzmc.SelSend(%s, %s).Val(%s); ", s, ch, v)
			head = fmt.Sprintf("case %d:", idx)
			idx++
		case *ast.ExprStmt:
			u := unparen(comm.X).(*ast.UnaryExpr)
			r.node(u.X)
			ch := r.render(u.X.Pos(), u.X.End())
			fmt.Fprintf(&pro, "zzmc.SelRecv(%s, %s); ", s, ch)
			head = fmt.Sprintf("case %d:", idx)
			idx++
		case *ast.AssignStmt:
			u := unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			r.node(u.X)
			ch := r.render(u.X.Pos(), u.X.End())
			rv := fmt.Sprintf("zzr%d_%d", r.n, idx)
			fmt.Fprintf(&pro, "%s := zzmc.SelRecv(%s, %s); ", rv, s, ch)
			head = fmt.Sprintf("case %d:", idx)
			var lhs []string
			for _, l := range comm.Lhs {
				if comm.Tok == token.ASSIGN {
					r.node(l)
				}
				lhs = append(lhs, r.render(l.Pos(), l.End()))
			}
			get := ".V()"
			if len(lhs) == 2 {
				get = ".V2()"
			}
			bind = " " + strings.Join(lhs, ", ") + " " + comm.Tok.String() + " " + rv + get + ";"
			idx++
		default:
			fatal("unsupported select clause")
		}
		if !hasDef && ci == nc-1 && cc.Comm != nil {
			head = "default:"
		}
		r.repl(cc.Case, cc.Colon+1, head+bind)
		for _, b := range cc.Body {
			r.node(b)
		}
	}
	if nc == 0 {
		r.repl(start, n.End(), "zzmc.Block(\"select{}\", func() bool { return false })")
		return
	}
	r.repl(start, n.Body.Lbrace, pro.String()+label+"switch "+s+".Do() ")
	r.ins(n.End(), " }", true)
}
