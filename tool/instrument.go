package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The instrumenter turns the non-test files of /repo into simulator-controlled code. It works on source text (insertions on
// the same line), so that line numbers in panics and race reports are those of /repo. Nothing is written below /repo: the
// result goes to a scratch directory that an overlay file maps onto /repo during the build.

const (
	module  = "github.com/GottfriedHerold/Bandersnatch"
	rtPath  = module + "/internal/verifsim/rt"
	rtAlias = "verifrt"
)

type edit struct {
	pos  int
	end  int // == pos for insertions
	text string
	seq  int
	shut bool // closes what an earlier edit opened
}

type pkgInfo struct {
	path  string
	dir   string
	name  string
	files []*ast.File
	names []string
	srcs  [][]byte
	deps  []string
	types *types.Package
	info  *types.Info
}

type instrumenter struct {
	fset    *token.FileSet
	pkgs    map[string]*pkgInfo
	order   []*pkgInfo
	std     types.Importer
	site    int
	sites   []string
	seamed  map[string]int // how many replacements of each kind
	overlay map[string]string
	out     string
}

var syncNames = map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Cond": true, "NewCond": true, "Pool": true, "Map": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}
var timeNames = map[string]string{"Now": "TimeNow", "Sleep": "TimeSleep", "Since": "TimeSince", "Until": "TimeUntil", "After": "TimeAfter"}
var randNames = map[string]bool{"Int": true, "Intn": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Uint32": true, "Uint64": true, "Float32": true, "Float64": true, "ExpFloat64": true, "NormFloat64": true, "Perm": true, "Shuffle": true, "Read": true}
var rand2Names = map[string]bool{"Int": true, "IntN": true, "Int32": true, "Int32N": true, "Int64": true, "Int64N": true, "Uint": true, "UintN": true, "Uint32": true, "Uint32N": true, "Uint64": true, "Uint64N": true, "Float32": true, "Float64": true, "ExpFloat64": true, "NormFloat64": true, "Perm": true, "Shuffle": true}

// Import implements types.Importer.
func (in *instrumenter) Import(path string) (*types.Package, error) {
	if p := in.pkgs[path]; p != nil {
		in.check(p)
		return p.types, nil
	}
	return in.std.Import(path)
}

func (in *instrumenter) check(p *pkgInfo) {
	if p.types != nil {
		return
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: in, Error: func(error) {}, FakeImportC: true}
	p.types = types.NewPackage(p.path, p.name) // guards against cycles
	t, _ := conf.Check(p.path, in.fset, p.files, p.info)
	if t != nil {
		p.types = t
	}
}

func instrument(repo, simDir, out string, tags []string) (*instrumenter, error) {
	in := &instrumenter{fset: token.NewFileSet(), pkgs: map[string]*pkgInfo{}, seamed: map[string]int{}, overlay: map[string]string{}, out: out}
	in.std = importer.ForCompiler(in.fset, "source", nil)
	in.sites = append(in.sites, "(simulator)")
	ctx := build.Default
	ctx.BuildTags = tags
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !fi.IsDir() {
			return nil
		}
		base := fi.Name()
		if path != repo && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor") {
			return filepath.SkipDir
		}
		return in.addDir(&ctx, repo, path)
	})
	if err != nil {
		return nil, err
	}
	sort.Slice(in.order, func(i, j int) bool { return in.order[i].path < in.order[j].path })
	for _, p := range in.order {
		in.check(p)
	}
	for _, p := range in.order {
		if err := in.rewrite(p); err != nil {
			return nil, err
		}
	}
	// the simulator and the harnesses
	err = filepath.Walk(simDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(simDir, path)
		if strings.HasPrefix(rel, "inpkg"+string(filepath.Separator)) { // files to be added to packages of the code under test
			return nil
		}
		in.overlay[filepath.Join(repo, "internal", "verifsim", rel)] = path
		return nil
	})
	return in, err
}

func (in *instrumenter) addDir(ctx *build.Context, repo, dir string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	rel, _ := filepath.Rel(repo, dir)
	p := &pkgInfo{path: module, dir: dir}
	if rel != "." {
		p.path = module + "/" + filepath.ToSlash(rel)
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") {
			continue
		}
		if ok, err := ctx.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			return err
		}
		f, err := parser.ParseFile(in.fset, filepath.Join(dir, n), src, parser.ParseComments)
		if err != nil {
			return fmt.Errorf("cannot parse %s: %v", filepath.Join(dir, n), err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.srcs = append(p.srcs, src)
		p.name = f.Name.Name
	}
	if len(p.files) == 0 {
		return nil
	}
	in.pkgs[p.path] = p
	in.order = append(in.order, p)
	return nil
}

func (in *instrumenter) rewrite(p *pkgInfo) error {
	dir := filepath.Join(in.out, "inst", strings.ReplaceAll(strings.TrimPrefix(p.path, module), "/", "_"))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for i, f := range p.files {
		src, err := in.rewriteFile(p, f, p.srcs[i])
		if err != nil {
			return err
		}
		dst := filepath.Join(dir, p.names[i])
		if err := os.WriteFile(dst, src, 0o644); err != nil {
			return err
		}
		in.overlay[filepath.Join(p.dir, p.names[i])] = dst
	}
	// registration of package-level variables
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\nfunc init() {\n", p.name, rtAlias, rtPath)
	short := strings.TrimPrefix(p.path, module+"/")
	n := 0
	for _, f := range p.files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						fmt.Fprintf(&b, "\t%s.RegisterGlobal(%q, &%s)\n", rtAlias, short+"."+id.Name, id.Name)
						n++
					}
				}
			}
		}
	}
	b.WriteString("}\n")
	if n > 0 {
		dst := filepath.Join(dir, "zz_verifsim_globals.go")
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}
		in.overlay[filepath.Join(p.dir, "zz_verifsim_globals.go")] = dst
	}
	return nil
}

func (in *instrumenter) rewriteFile(p *pkgInfo, f *ast.File, src []byte) ([]byte, error) {
	var edits []edit
	off := func(pos token.Pos) int { return in.fset.Position(pos).Offset }
	ins := func(pos token.Pos, text string) {
		edits = append(edits, edit{off(pos), off(pos), text, len(edits), false})
	}
	shut := func(pos token.Pos, text string) {
		edits = append(edits, edit{off(pos), off(pos), text, len(edits), true})
	}
	repl := func(a, b token.Pos, text string) {
		edits = append(edits, edit{off(a), off(b), text, len(edits), false})
	}
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
	}
	keep := map[string]string{}
	pkgOf := func(x ast.Expr) string {
		id, ok := x.(*ast.Ident)
		if !ok {
			return ""
		}
		if o := p.info.Uses[id]; o != nil {
			if pn, ok := o.(*types.PkgName); ok {
				return pn.Imported().Path()
			}
			return ""
		}
		if id.Obj == nil {
			return imports[id.Name]
		}
		return ""
	}
	seam := func(n *ast.SelectorExpr, name string) {
		in.seamed[name]++
	}
	newSite := func(at token.Pos) string {
		in.site++
		pos := in.fset.Position(at)
		rel := strings.TrimPrefix(strings.TrimPrefix(p.path, module), "/")
		in.sites = append(in.sites, fmt.Sprintf("%s/%s:%d", rel, filepath.Base(pos.Filename), pos.Line))
		return fmt.Sprintf("%s.Y(%d); ", rtAlias, in.site)
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause: // the body of a switch is a block of clauses
				continue
			}
			ins(s.Pos(), newSite(s.Pos()))
		}
	}
	raw := func(e ast.Expr) string {
		if e == nil {
			return ""
		}
		return string(src[off(e.Pos()):off(e.End())])
	}
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	var visit func(n ast.Node) bool
	// render returns the rewritten text of a node
	render := func(n ast.Node) string {
		saved := edits
		edits = nil
		ast.Inspect(n, visit)
		t, err := apply(edits, src, off(n.Pos()), off(n.End()))
		edits = saved
		if err != nil {
			return string(src[off(n.Pos()):off(n.End())])
		}
		return t
	}
	recvOf := func(e ast.Expr) *ast.UnaryExpr {
		u, ok := unparen(e).(*ast.UnaryExpr)
		if !ok || u.Op != token.ARROW {
			return nil
		}
		return u
	}
	two := map[*ast.UnaryExpr]bool{} // receive operations with two results
	labelOf := map[ast.Stmt]*ast.LabeledStmt{}
	counter := 0
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.LabeledStmt:
			labelOf[n.Stmt] = n
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				ins(n.Body.Lbrace+1, newSite(n.For))
			}
		case *ast.GoStmt:
			in.seamed["go"]++
			pre, call := in.hoist(p, n.Call, render, pkgOf)
			repl(n.Pos(), n.End(), "{ "+pre+rtAlias+".Go(func() { "+call+" }) }")
			return false
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := recvOf(n.Rhs[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := recvOf(n.Values[0]); u != nil {
					two[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				in.seamed["receive"]++
				f := ".Recv("
				if two[n] {
					f = ".Recv2("
				}
				repl(n.OpPos, n.X.Pos(), rtAlias+f)
				shut(n.X.End(), ")")
			}
		case *ast.SendStmt:
			in.seamed["send"]++
			ins(n.Chan.Pos(), rtAlias+".SendTo(")
			repl(n.Arrow, n.Arrow+2, ")(")
			shut(n.Value.End(), ")")
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && id.Name == "close" {
				if _, ok := p.info.Uses[id].(*types.Builtin); ok {
					in.seamed["close"]++
					repl(n.Fun.Pos(), n.Fun.End(), rtAlias+".CloseChan")
				}
			}
		case *ast.SelectStmt:
			in.seamed["select"]++
			counter++
			sel := fmt.Sprintf("verifSel%d", counter)
			if len(n.Body.List) == 0 {
				repl(n.Pos(), n.End(), "{ "+rtAlias+".Forever(); panic(\"unreachable\") }")
				return false
			}
			def := "false"
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					def = "true"
				}
			}
			pre := fmt.Sprintf("{ %s := %s.NewSel(%s); ", sel, rtAlias, def)
			k := 0
			for _, c := range n.Body.List {
				c := c.(*ast.CommClause)
				head := ""
				switch m := c.Comm.(type) {
				case nil:
				case *ast.SendStmt:
					pre += fmt.Sprintf("%s.SelSend(%s, %s)(%s); ", rtAlias, sel, render(m.Chan), render(m.Value))
				case *ast.ExprStmt:
					if u := recvOf(m.X); u != nil {
						pre += fmt.Sprintf("%s.SelRecv(%s, %s); ", rtAlias, sel, render(u.X))
					}
				case *ast.AssignStmt:
					if u := recvOf(m.Rhs[0]); u != nil {
						pre += fmt.Sprintf("%sC%d := %s.SelRecv(%s, %s); ", sel, k, rtAlias, sel, render(u.X))
						lhs := render(m.Lhs[0])
						rhs := fmt.Sprintf("%sC%d.V", sel, k)
						if len(m.Lhs) == 2 {
							lhs += ", " + render(m.Lhs[1])
							rhs += fmt.Sprintf(", %sC%d.OK", sel, k)
						}
						if len(m.Lhs) == 1 && blank(m.Lhs[0]) || len(m.Lhs) == 2 && blank(m.Lhs[0]) && blank(m.Lhs[1]) {
							head = lhs + " = " + rhs + "; "
						} else {
							head = lhs + " " + m.Tok.String() + " " + rhs + "; "
						}
					}
				}
				if c.Comm != nil {
					repl(c.Case, c.Colon+1, fmt.Sprintf("case %d: %s", k, head))
					k++
				}
				stmts(c.Body)
				for _, s := range c.Body {
					ast.Inspect(s, visit)
				}
			}
			at := n.Pos()
			if l := labelOf[n]; l != nil {
				at = l.Pos()
			}
			ins(at, pre)
			repl(n.Select, n.Body.Lbrace, "switch "+sel+".Do() ")
			if def == "false" {
				ins(n.Body.Rbrace, `; default: panic("unreachable") `)
			}
			shut(n.End(), " }")
			return false
		case *ast.SelectorExpr:
			switch pkgOf(n.X) {
			case "sync":
				if syncNames[n.Sel.Name] {
					seam(n, "sync."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Mutex"] = "type"
					repl(n.X.Pos(), n.X.End(), rtAlias)
				}
			case "time":
				if t := timeNames[n.Sel.Name]; t != "" {
					seam(n, "time."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Duration"] = "type"
					repl(n.Pos(), n.End(), rtAlias+"."+t)
				}
			case "runtime":
				if n.Sel.Name == "Gosched" || n.Sel.Name == "NumCPU" || n.Sel.Name == "GOMAXPROCS" {
					seam(n, "runtime."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".MemStats"] = "type"
					repl(n.X.Pos(), n.X.End(), rtAlias)
				}
			case "maps":
				if n.Sel.Name == "Keys" || n.Sel.Name == "Values" || n.Sel.Name == "All" {
					seam(n, "maps."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Clone[map[int]int]"] = "func"
					repl(n.Pos(), n.End(), rtAlias+".Maps"+n.Sel.Name)
				}
			case "math/rand":
				if randNames[n.Sel.Name] {
					seam(n, "rand."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Rand"] = "type"
					repl(n.X.Pos(), n.X.End(), rtAlias+".GRand()")
				}
			case "math/rand/v2":
				if rand2Names[n.Sel.Name] {
					seam(n, "rand/v2."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Rand"] = "type"
					repl(n.X.Pos(), n.X.End(), rtAlias+".GRand2()")
				}
			case "crypto/rand":
				if n.Sel.Name == "Reader" || n.Sel.Name == "Read" {
					seam(n, "crypto/rand."+n.Sel.Name)
					keep[n.X.(*ast.Ident).Name+".Reader"] = "var"
					repl(n.Pos(), n.End(), rtAlias+".Crypto"+n.Sel.Name)
				}
			}
		case *ast.RangeStmt:
			tv, ok := p.info.Types[n.X]
			if !ok {
				break
			}
			counter++
			it := fmt.Sprintf("verifIter%d", counter)
			switch core(tv.Type).(type) {
			case *types.Map:
				in.seamed["map range"]++
				kind, vars, ptrs := "", it, ""
				if !blank(n.Key) {
					kind, vars, ptrs = "K", vars+", "+raw(n.Key), "&"+raw(n.Key)
				}
				if !blank(n.Value) {
					if kind != "" {
						ptrs += ", "
					}
					kind, vars, ptrs = kind+"V", vars+", "+raw(n.Value), ptrs+"&"+raw(n.Value)
				}
				if kind == "" {
					kind = "0"
				}
				if n.Tok == token.DEFINE || kind == "0" {
					repl(n.For, n.X.Pos(), fmt.Sprintf("for %s := %s.RangeMap%s(", vars, rtAlias, kind))
					shut(n.X.End(), fmt.Sprintf("); %s.Next%s(%s);", it, kind, ptrs))
					break
				}
				body := " if verifE.Gone() { continue }; "
				switch kind {
				case "KV":
					body += fmt.Sprintf("%s, %s = verifE.K, verifE.Val(); {", raw(n.Key), raw(n.Value))
				case "K":
					body += fmt.Sprintf("%s = verifE.K; {", raw(n.Key))
				case "V":
					body += fmt.Sprintf("%s = verifE.Val(); {", raw(n.Value))
				}
				repl(n.For, n.X.Pos(), fmt.Sprintf("for _, verifE := range %s.MapEntries(", rtAlias))
				shut(n.X.End(), ")")
				ins(n.Body.Lbrace+1, body)
				shut(n.Body.Rbrace, "}")
			case *types.Chan:
				in.seamed["channel range"]++
				switch {
				case blank(n.Key):
					repl(n.For, n.X.Pos(), fmt.Sprintf("for %s := %s.RangeChan0(", it, rtAlias))
					shut(n.X.End(), fmt.Sprintf("); %s.Next0();", it))
				case n.Tok == token.DEFINE:
					repl(n.For, n.X.Pos(), fmt.Sprintf("for %s, %s := %s.RangeChan(", it, raw(n.Key), rtAlias))
					shut(n.X.End(), fmt.Sprintf("); %s.Next(&%s);", it, raw(n.Key)))
				default:
					repl(n.For, n.X.Pos(), fmt.Sprintf("for %s, %sV := %s.RangeChan(", it, it, rtAlias))
					shut(n.X.End(), fmt.Sprintf("); %s.Next(&%sV);", it, it))
					ins(n.Body.Lbrace+1, fmt.Sprintf(" %s = %sV; {", raw(n.Key), it))
					shut(n.Body.Rbrace, "}")
				}
			}
		}
		return true
	}
	ast.Inspect(f, visit)
	ins(f.Name.End(), fmt.Sprintf("; import %s %q", rtAlias, rtPath))
	text, err := apply(edits, src, 0, len(src))
	if err != nil {
		return nil, fmt.Errorf("%v in %s", err, in.fset.Position(f.Pos()).Filename)
	}
	var b strings.Builder
	b.WriteString(text)
	fmt.Fprintf(&b, "\n\nvar _ = %s.Y\n", rtAlias)
	var ks []string
	for k := range keep {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch keep[k] {
		case "var":
			fmt.Fprintf(&b, "\nvar _ = &%s\n", k)
		case "func":
			fmt.Fprintf(&b, "\nvar _ = %s\n", k)
		default:
			fmt.Fprintf(&b, "\nvar _ *%s\n", k)
		}
	}
	return []byte(b.String()), nil
}

// apply performs the edits on src[from:to].
func apply(edits []edit, src []byte, from, to int) (string, error) {
	sort.SliceStable(edits, func(i, j int) bool {
		a, b := &edits[i], &edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.shut != b.shut {
			return a.shut
		}
		return a.shut && a.seq > b.seq
	})
	var b strings.Builder
	last := from
	for _, e := range edits {
		if e.pos < last || e.end > to {
			return "", fmt.Errorf("overlapping edits")
		}
		b.Write(src[last:e.pos])
		b.WriteString(e.text)
		last = e.end
	}
	b.Write(src[last:to])
	return b.String(), nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// core returns the type that decides what range does with a value of type t (for type parameters: that of their constraints).
func core(t types.Type) types.Type {
	tp, ok := t.(*types.TypeParam)
	if !ok {
		return t.Underlying()
	}
	i, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		switch e := i.EmbeddedType(k).(type) {
		case *types.Union:
			if e.Len() > 0 {
				return core(e.Term(0).Type())
			}
		default:
			if c := core(e); c != nil {
				if _, ok := c.(*types.Interface); !ok {
					return c
				}
			}
		}
	}
	return nil
}

// hoist makes the operands of a go statement be evaluated before the new thread starts. It returns the statements to do so and the call.
func (in *instrumenter) hoist(p *pkgInfo, c *ast.CallExpr, render func(ast.Node) string, pkgOf func(ast.Expr) string) (pre, call string) {
	fun := render(c.Fun)
	early := true
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit, *ast.IndexListExpr:
		early = false
	case *ast.IndexExpr: // an instance of a generic function, or an element of something
		if t := p.info.Types[f.X].Type; t == nil {
			early = false
		} else if _, ok := t.Underlying().(*types.Signature); ok {
			early = false
		}
	case *ast.Ident:
		_, isVar := p.info.Uses[f].(*types.Var)
		early = isVar
	case *ast.SelectorExpr:
		early = pkgOf(f.X) == ""
	}
	if tv, ok := p.info.Types[c.Fun]; !ok || tv.IsType() || tv.IsBuiltin() {
		early = false
	}
	if early {
		pre += "verifF := " + fun + "; "
		fun = "verifF"
	}
	var args []string
	for i, a := range c.Args {
		tv, ok := p.info.Types[a]
		_, lit := unparen(a).(*ast.FuncLit)
		if !ok || tv.Value != nil || tv.IsNil() || tv.IsType() || lit {
			args = append(args, render(a))
			continue
		}
		if t, ok := tv.Type.(*types.Tuple); ok {
			var l []string
			for j := 0; j < t.Len(); j++ {
				l = append(l, fmt.Sprintf("verifA%d_%d", i, j))
			}
			pre += strings.Join(l, ", ") + " := " + render(a) + "; "
			args = append(args, l...)
			continue
		}
		v := fmt.Sprintf("verifA%d", i)
		pre += v + " := " + render(a) + "; "
		args = append(args, v)
	}
	call = fun + "(" + strings.Join(args, ", ")
	if c.Ellipsis.IsValid() {
		call += "..."
	}
	return pre, call + ")"
}

func (in *instrumenter) write() (string, error) {
	o := filepath.Join(in.out, "overlay.json")
	data, err := json.MarshalIndent(map[string]any{"Replace": in.overlay}, "", " ")
	if err != nil {
		return "", err
	}
	if err := os.WriteFile(o, data, 0o644); err != nil {
		return "", err
	}
	return o, os.WriteFile(filepath.Join(in.out, "sites.txt"), []byte(strings.Join(in.sites, "\n")+"\n"), 0o644)
}
