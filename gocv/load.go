package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Prog is the package under verification, parsed from the working tree.
type Prog struct {
	fset   *token.FileSet
	files  []*ast.File
	pkg    *types.Package
	info   *types.Info
	funcs  map[*types.Func]*ast.FuncDecl
	byName map[string]*types.Func // "F", "T.M", "*T.M" are all keyed "T.M"
	// package-level variables: initial expression and whether anything writes them
	ginit   map[*types.Var]ast.Expr
	gwrit   map[*types.Var]bool
	iwrit   map[*types.Var]bool // written by the package's init functions
	gtuple  map[*types.Var]int  // which of several results initialises it
	inits   []*types.Func
	dropped []string
	src     map[string][]byte
	dir     string
}

func loadProg(repo, stubs string) (*Prog, error) {
	build.Default.GOPATH = stubs
	build.Default.CgoEnabled = false
	os.Setenv("GO111MODULE", "off")
	os.Setenv("GOPATH", stubs)
	os.Setenv("GOFLAGS", "")
	names, err := filepath.Glob(filepath.Join(repo, "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	// the client functions of the contracts call the package from outside
	clients, _ := filepath.Glob(filepath.Join(filepath.Dir(stubs), "contracts", "*.client"))
	p, err := tryLoad(append(append([]string(nil), names...), clients...), nil)
	if err != nil && len(clients) > 0 {
		p, err = tryLoad(names, nil)
	}
	if err == nil {
		p.dir = repo
		return p, nil
	}
	// fall back to the files the repository's own build uses
	core := map[string]bool{}
	for _, n := range hiddenFiles {
		core[n] = true
	}
	var keep, drop []string
	for _, n := range names {
		if core[filepath.Base(n)] {
			drop = append(drop, filepath.Base(n))
		} else {
			keep = append(keep, n)
		}
	}
	p, err2 := tryLoad(keep, drop)
	if err2 != nil {
		return nil, fmt.Errorf("%v; and without the calendar files: %v", err, err2)
	}
	p.dropped, p.dir = drop, repo
	fmt.Fprintln(os.Stderr, "gocv: calendar files left out, they do not type-check:", err)
	return p, nil
}

// hiddenFiles need two packages that are not available here; the repository's
// own test build leaves them out too.
var hiddenFiles = []string{"astro_moon.go", "cal_day.go", "calendar_event.go", "event.go", "half_moon.go", "major_event.go", "uposatha_moon.go"}

func tryLoad(names, dropped []string) (*Prog, error) {
	p := &Prog{fset: token.NewFileSet(), funcs: map[*types.Func]*ast.FuncDecl{}, byName: map[string]*types.Func{},
		ginit: map[*types.Var]ast.Expr{}, gwrit: map[*types.Var]bool{}, iwrit: map[*types.Var]bool{}, gtuple: map[*types.Var]int{}, src: map[string][]byte{}}
	var order []string
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, _ := build.Default.MatchFile(filepath.Dir(n), filepath.Base(n)); !ok && !strings.HasSuffix(n, ".client") {
			continue
		}
		b, err := os.ReadFile(n)
		if err != nil {
			return nil, err
		}
		p.src[n] = b
		order = append(order, n)
	}
	if len(order) == 0 {
		return nil, fmt.Errorf("no Go files")
	}
	imp := importer.ForCompiler(p.fset, "source", nil)
	if err := p.check(order, imp, false); err != nil {
		return nil, err
	}
	if usesSlices(p.files) {
		order = append(order, "slices.gocv")
		p.src["slices.gocv"] = []byte(slicesText)
		if err := p.check(order, imp, true); err != nil {
			return nil, err
		}
	}
	if len(p.info.Instances) > 0 {
		made := map[string]string{}
		for more := true; more; {
			if len(made) > 200 {
				return nil, fmt.Errorf("too many instances of generic functions")
			}
			more = p.instances(order, made)
			if err := p.check(order, imp, true); err != nil {
				return nil, err
			}
		}
	}
	for _, f := range p.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				fn := p.info.Defs[d.Name].(*types.Func)
				p.funcs[fn] = d
				if d.Recv == nil && d.Name.Name == "init" {
					p.inits = append(p.inits, fn)
				}
				p.byName[funcKey(fn)] = fn
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, n := range vs.Names {
						v, ok := p.info.Defs[n].(*types.Var)
						if !ok {
							continue
						}
						if len(vs.Values) == len(vs.Names) {
							p.ginit[v] = vs.Values[i]
						} else {
							p.ginit[v] = nil
							if len(vs.Values) == 1 {
								p.ginit[v] = vs.Values[0]
								p.gtuple[v] = i
							}
						}
					}
				}
			}
		}
	}
	for _, f := range p.files {
		p.findWrites(f)
	}
	return p, nil
}

// check parses and type-checks the sources; again: unused imports do not count.
func (p *Prog) check(order []string, imp types.Importer, again bool) error {
	p.files = nil
	for _, n := range order {
		f, err := parser.ParseFile(p.fset, n, p.src[n], parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		p.files = append(p.files, f)
	}
	p.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	var first error
	conf := types.Config{Importer: imp, Error: func(e error) {
		if te, ok := e.(types.Error); ok && te.Soft && again {
			return
		}
		if first == nil {
			first = e
		}
	}}
	pkg, err := conf.Check("github.com/splendidmoons/suriya-go", p.fset, p.files, p.info)
	if first != nil {
		return first
	}
	if err != nil && !again {
		return err
	}
	p.pkg = pkg
	return nil
}

func funcKey(fn *types.Func) string {
	sig := fn.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name() + "." + fn.Name()
		}
	}
	return fn.Name()
}

// rootVar is the package-level variable an lvalue or address expression reaches into.
func (p *Prog) rootVar(e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok {
				if _, isPkg := p.info.Uses[id].(*types.PkgName); isPkg {
					return nil
				}
			}
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.Ident:
			v, ok := p.info.Uses[x].(*types.Var)
			if ok && v.Parent() == p.pkg.Scope() {
				return v
			}
			return nil
		default:
			return nil
		}
	}
}

// findWrites marks package-level variables that any code assigns, takes the
// address of, or passes on in a way that could let it be changed.
func (p *Prog) findWrites(f *ast.File) {
	var stack []ast.Node
	written := func(v *types.Var) {
		for _, n := range stack {
			if fd, ok := n.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				p.iwrit[v] = true
				return
			}
		}
		p.gwrit[v] = true
	}
	mark := func(e ast.Expr) {
		if v := p.rootVar(e); v != nil {
			written(v)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l)
			}
		case *ast.IncDecStmt:
			mark(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				mark(n.X)
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN {
				mark(n.Key)
				if n.Value != nil {
					mark(n.Value)
				}
			}
		case *ast.Ident:
			v, ok := p.info.Uses[n].(*types.Var)
			if ok && v.Parent() == p.pkg.Scope() && !p.plainError(v) && !p.readUse(stack, map[types.Object]bool{}) {
				written(v)
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				if b, ok := p.info.Uses[id].(*types.Builtin); ok && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
					mark(n.Args[0])
				}
			}
			// pointer-receiver method on an addressable global
			if se, ok := n.Fun.(*ast.SelectorExpr); ok {
				if sel := p.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					if fn, ok := sel.Obj().(*types.Func); ok {
						if r := fn.Type().(*types.Signature).Recv(); r != nil {
							if _, ptr := r.Type().(*types.Pointer); ptr {
								if _, isptr := sel.Recv().Underlying().(*types.Pointer); !isptr {
									mark(se.X)
								}
							}
						}
					}
				}
			}
		}
		return true
	})
}

// plainError: the variable is initialised with errors.New, so that nothing can
// be changed by way of its value.
func (p *Prog) plainError(v *types.Var) bool {
	c, ok := p.ginit[v].(*ast.CallExpr)
	if !ok || !types.IsInterface(v.Type()) {
		return false
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	fn, ok := p.info.Uses[sel.Sel].(*types.Func)
	return ok && fn.FullName() == "errors.New"
}

// readUse: the use of a variable at the top of the stack only reads it: what is
// reached from it is not a reference, or one that is used at once.
func (p *Prog) readUse(stack []ast.Node, busy map[types.Object]bool) bool {
	i := len(stack) - 1
	e := stack[i].(ast.Expr)
	viaMap := false
	for i > 0 {
		x, ok := stack[i-1].(ast.Expr)
		if !ok {
			break
		}
		switch y := x.(type) {
		case *ast.ParenExpr, *ast.StarExpr:
		case *ast.IndexExpr:
			if y.X != e {
				ok = false
			} else if _, isMap := p.info.TypeOf(e).Underlying().(*types.Map); isMap {
				viaMap = true
			}
		case *ast.SelectorExpr:
			sel := p.info.Selections[y]
			if y.X != e || sel == nil {
				if sel == nil && y.Sel == e {
					break // package.Var cannot be one of ours
				}
				ok = false
			} else if sel.Kind() != types.FieldVal {
				if _, isPtr := p.info.TypeOf(e).Underlying().(*types.Pointer); isPtr || types.IsInterface(p.info.TypeOf(e)) {
					return true // as with any call through a pointer, its own reads and writes count
				}
				if !isRef(p.info.TypeOf(e)) {
					return true
				}
				fn, isFn := sel.Obj().(*types.Func)
				return isFn && p.readsParam(fn, -1, busy)
			}
		default:
			ok = false
		}
		if !ok {
			break
		}
		i--
		e = x
	}
	t := p.info.TypeOf(e)
	if !isRef(t) {
		return !holdsRef(t) || i < len(stack)-1
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr && viaMap {
		return true // objects of their own
	}
	if _, isFn := t.Underlying().(*types.Signature); isFn {
		return true
	}
	if i == 0 {
		return false
	}
	switch x := stack[i-1].(type) {
	case *ast.RangeStmt:
		if x.X != e {
			return true // assigned, which counts anyway
		}
		if x.Value == nil {
			return true
		}
		switch u := t.Underlying().(type) {
		case *types.Map:
			return !isRef(u.Elem())
		case *types.Slice:
			return !isRef(u.Elem())
		}
	case *ast.AssignStmt:
		for _, l := range x.Lhs {
			if l == e {
				return true // assigned, which counts anyway
			}
		}
		// put in a local variable that is only read
		if len(x.Lhs) == len(x.Rhs) {
			for k, r := range x.Rhs {
				if r == e {
					return p.readsLocal(x.Lhs[k], stack, busy)
				}
			}
		}
	case *ast.ValueSpec:
		if len(x.Names) == len(x.Values) {
			for k, r := range x.Values {
				if r == e {
					return p.readsLocal(x.Names[k], stack, busy)
				}
			}
		}
	case *ast.BinaryExpr:
		return true
	case *ast.TypeSwitchStmt, *ast.SwitchStmt:
		return true
	case *ast.CallExpr:
		if tv := p.info.Types[x.Fun]; tv.IsBuiltin() {
			id, ok := ast.Unparen(x.Fun).(*ast.Ident)
			if !ok {
				return false
			}
			switch id.Name {
			case "len", "cap", "delete", "copy", "clear":
				return id.Name != "copy" || x.Args[0] == e || !isRef(elemOf(t))
			case "append":
				return x.Args[0] != e && x.Ellipsis.IsValid() && !isRef(elemOf(t))
			}
			return false
		}
		var fn *types.Func
		switch f := ast.Unparen(x.Fun).(type) {
		case *ast.Ident:
			fn, _ = p.info.Uses[f].(*types.Func)
		case *ast.SelectorExpr:
			fn, _ = p.info.Uses[f.Sel].(*types.Func)
		}
		if fn == nil {
			return false
		}
		for k, a := range x.Args {
			if a == e {
				return p.readsParam(fn, k, busy)
			}
		}
	}
	return false
}

// holdsRef: a copy of the value shares something that can change.
func holdsRef(t types.Type) bool {
	if isTime(t) {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if f := x.Field(i).Type(); holdsRef(f) || isRef(f) && !types.IsInterface(f) {
				return true
			}
		}
	case *types.Array:
		return isRef(x.Elem()) || holdsRef(x.Elem())
	}
	return false
}

func elemOf(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	}
	return t
}

// readsParam: a function of the package, or a known one, only reads what a
// parameter (or the receiver, -1) refers to.
func (p *Prog) readsParam(fn *types.Func, k int, busy map[types.Object]bool) bool {
	if fn.Pkg() != p.pkg {
		switch fn.FullName() {
		case "strings.Join", "sort.SearchInts", "sort.SearchStrings":
			return k == 0
		}
		return false
	}
	d := p.declOf(fn)
	if d == nil || d.Body == nil || busy[fn] {
		return false
	}
	busy[fn] = true
	defer delete(busy, fn)
	sig := fn.Type().(*types.Signature)
	if sig.Variadic() && k >= sig.Params().Len()-1 {
		return false
	}
	var v *types.Var
	if k < 0 {
		v = sig.Recv()
	} else if k < sig.Params().Len() {
		v = sig.Params().At(k)
	}
	return v != nil && p.readsVar(d.Body, v, busy)
}

// readsLocal: the local variable a reference was put in is only read.
func (p *Prog) readsLocal(e ast.Expr, stack []ast.Node, busy map[types.Object]bool) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	if id.Name == "_" {
		return true
	}
	v, ok := p.info.ObjectOf(id).(*types.Var)
	if !ok || v.Parent() == nil || v.Parent() == p.pkg.Scope() {
		return false
	}
	if busy[v] {
		return true // being looked at
	}
	busy[v] = true
	defer delete(busy, v)
	for _, n := range stack {
		if d, ok := n.(*ast.FuncDecl); ok && d.Body != nil {
			return p.readsVar(d.Body, v, busy)
		}
	}
	return false
}

func (p *Prog) readsVar(body ast.Node, v *types.Var, busy map[types.Object]bool) bool {
	ok := true
	root := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.Ident:
				return p.info.Uses[x] == v
			default:
				return false
			}
		}
	}
	var stack []ast.Node
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if id, plain := l.(*ast.Ident); plain && p.info.ObjectOf(id) == v {
					continue // another value for the variable
				}
				ok = ok && !root(l)
			}
		case *ast.IncDecStmt:
			ok = ok && !root(n.X)
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				ok = ok && !root(n.X)
			}
		case *ast.RangeStmt:
			if n.Tok == token.ASSIGN && (root(n.Key) || n.Value != nil && root(n.Value)) {
				ok = false
			}
		case *ast.CallExpr:
			if id, isId := n.Fun.(*ast.Ident); isId && len(n.Args) > 0 {
				if b, isB := p.info.Uses[id].(*types.Builtin); isB && (b.Name() == "delete" || b.Name() == "copy" || b.Name() == "clear") {
					ok = ok && !root(n.Args[0])
				}
			}
		case *ast.FuncLit:
			ok = false // may outlive the call
		case *ast.Ident:
			if p.info.Uses[n] == v {
				ok = ok && p.readUse(stack, busy)
			}
		}
		return true
	})
	return ok
}

func (p *Prog) declOf(fn *types.Func) *ast.FuncDecl { return p.funcs[fn] }

// likeSig finds the one unexported function with a signature and no contract
// of its own.
func (p *Prog) likeSig(sig string, v *Verifier) *types.Func {
	var found *types.Func
	for fn := range p.funcs {
		s := fn.Type().(*types.Signature)
		if fn.Exported() || s.Recv() != nil {
			continue
		}
		named := false
		for _, c := range v.contracts {
			named = named || c.key == fn.Name()
		}
		// types only, without parameter names
		q := func(p *types.Package) string {
			if p == fn.Pkg() {
				return ""
			}
			return p.Name()
		}
		var ps, rs []string
		for i := 0; i < s.Params().Len(); i++ {
			ps = append(ps, types.TypeString(s.Params().At(i).Type(), q))
		}
		for i := 0; i < s.Results().Len(); i++ {
			rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
		}
		if named || "("+strings.Join(ps, ", ")+") ("+strings.Join(rs, ", ")+")" != sig {
			continue
		}
		if found != nil {
			return nil
		}
		found = fn
	}
	return found
}

func isRef(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice, *types.Pointer, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func constRat(v constant.Value) (string, bool) {
	v = constant.ToFloat(v)
	if v.Kind() != constant.Float && v.Kind() != constant.Int {
		return "", false
	}
	n, d := constant.Num(v), constant.Denom(v)
	return n.ExactString() + "/" + d.ExactString(), true
}
