package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Generic functions are verified instance by instance: before anything else,
// every call of one is turned into a call of a copy with the type parameters
// replaced, in the source text and until none is left. Lines stay where they are.
// A few functions of package slices are replaced by the Go text below.

const slicesText = `package suriya

import "sort"

func gocv_slices_IndexFunc[S ~[]E, E any](s S, f func(E) bool) int {
	for i := range s {
		if f(s[i]) {
			return i
		}
	}
	return -1
}
func gocv_slices_Index[S ~[]E, E comparable](s S, v E) int {
	for i := range s {
		if v == s[i] {
			return i
		}
	}
	return -1
}
func gocv_slices_ContainsFunc[S ~[]E, E any](s S, f func(E) bool) bool {
	for i := range s {
		if f(s[i]) {
			return true
		}
	}
	return false
}
func gocv_slices_Contains[S ~[]E, E comparable](s S, v E) bool {
	for i := range s {
		if v == s[i] {
			return true
		}
	}
	return false
}
func gocv_slices_SortFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
	sort.Slice(x, func(i, j int) bool { return cmp(x[i], x[j]) < 0 })
}
func gocv_slices_SortStableFunc[S ~[]E, E any](x S, cmp func(a, b E) int) {
	sort.SliceStable(x, func(i, j int) bool { return cmp(x[i], x[j]) < 0 })
}
func gocv_slices_Clone[S ~[]E, E any](s S) S {
	return append(S([]E{}), s...)
}
`

type edit struct {
	lo, hi int
	text   string
}

func apply(src []byte, es []edit) []byte {
	sort.Slice(es, func(i, j int) bool { return es[i].lo < es[j].lo })
	var b bytes.Buffer
	at := 0
	for _, e := range es {
		if e.lo < at {
			continue
		}
		b.Write(src[at:e.lo])
		b.WriteString(e.text)
		at = e.hi
	}
	b.Write(src[at:])
	return b.Bytes()
}

// usesSlices: some file imports package slices.
func usesSlices(files []*ast.File) bool {
	for _, f := range files {
		for _, im := range f.Imports {
			if im.Path.Value == `"slices"` {
				return true
			}
		}
	}
	return false
}

func concrete(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.TypeParam:
		return false
	case *types.Named:
		for i := 0; i < t.TypeArgs().Len(); i++ {
			if !concrete(t.TypeArgs().At(i), seen) {
				return false
			}
		}
	case *types.Slice:
		return concrete(t.Elem(), seen)
	case *types.Array:
		return concrete(t.Elem(), seen)
	case *types.Pointer:
		return concrete(t.Elem(), seen)
	case *types.Map:
		return concrete(t.Key(), seen) && concrete(t.Elem(), seen)
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			if !concrete(t.Params().At(i).Type(), seen) {
				return false
			}
		}
		for i := 0; i < t.Results().Len(); i++ {
			if !concrete(t.Results().At(i).Type(), seen) {
				return false
			}
		}
	}
	return true
}

// instances rewrites the calls of generic functions that have concrete types;
// it reports whether there were any. Generic functions go once there are none.
func (p *Prog) instances(names []string, made map[string]string) bool {
	decls := map[string]*ast.FuncDecl{}
	in := map[string]int{}
	for i, f := range p.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Type.TypeParams != nil {
				decls[fd.Name.Name], in[fd.Name.Name] = fd, i
			}
		}
	}
	edits := make([][]edit, len(p.files))
	added := make([]string, len(p.files))
	any := false
	off := func(pos token.Pos) int { return p.fset.Position(pos).Offset }
	for i, f := range p.files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			inst, ok := p.info.Instances[id]
			fn, isFn := p.info.Uses[id].(*types.Func)
			if !ok || !isFn || fn.Pkg() == nil {
				return true
			}
			name := fn.Name()
			if fn.Pkg() != p.pkg {
				name = "gocv_" + fn.Pkg().Path() + "_" + name
			}
			fd := decls[name]
			if fd == nil {
				return true
			}
			var ts []string
			for k := 0; k < inst.TypeArgs.Len(); k++ {
				t := inst.TypeArgs.At(k)
				if !concrete(t, map[types.Type]bool{}) {
					return true
				}
				ts = append(ts, types.TypeString(t, p.qualifier(in[name], &edits[in[name]])))
			}
			key := name + "[" + strings.Join(ts, ",") + "]"
			made1, ok := made[key]
			if !ok {
				made1 = fmt.Sprintf("%s_gocv%d", name, len(made))
				made[key] = made1
				src := p.src[names[in[name]]]
				lo, hi := off(fd.Pos()), off(fd.End())
				es := []edit{{off(fd.Name.Pos()), off(fd.Name.End()), made1}, {off(fd.Type.TypeParams.Pos()), off(fd.Type.TypeParams.End()), ""}}
				ast.Inspect(fd, func(n ast.Node) bool {
					if t, ok := n.(*ast.Ident); ok {
						if tn, ok := p.info.Uses[t].(*types.TypeName); ok {
							if tp, ok := tn.Type().(*types.TypeParam); ok {
								es = append(es, edit{off(t.Pos()), off(t.End()), "(" + ts[tp.Index()] + ")"})
							}
						}
					}
					return true
				})
				for k := range es {
					es[k].lo -= lo
					es[k].hi -= lo
				}
				added[in[name]] += "\n" + string(apply(src[lo:hi], es)) + "\n"
			}
			// the whole expression that names the instance
			e := ast.Expr(id)
			for k := len(stack) - 2; k >= 0; k-- {
				switch x := stack[k].(type) {
				case *ast.SelectorExpr:
					if x.Sel == e {
						e = x
						continue
					}
				case *ast.IndexExpr:
					if x.X == e {
						e = x
						continue
					}
				case *ast.IndexListExpr:
					if x.X == e {
						e = x
						continue
					}
				}
				break
			}
			edits[i] = append(edits[i], edit{off(e.Pos()), off(e.End()), made1})
			any = true
			return true
		})
	}
	if !any {
		for name, fd := range decls {
			i := in[name]
			lo, hi := off(fd.Pos()), off(fd.End())
			text := []byte(p.src[names[i]][lo:hi])
			edits[i] = append(edits[i], edit{lo, hi, strings.Repeat("\n", bytes.Count(text, []byte("\n")))})
		}
	}
	for i := range p.files {
		p.src[names[i]] = append(apply(p.src[names[i]], edits[i]), added[i]...)
	}
	return any
}

// qualifier names packages as a file does, adding an import where it must.
func (p *Prog) qualifier(file int, es *[]edit) types.Qualifier {
	return func(pkg *types.Package) string {
		if pkg == p.pkg {
			return ""
		}
		for _, im := range p.files[file].Imports {
			if im.Path.Value == `"`+pkg.Path()+`"` {
				if im.Name != nil {
					return im.Name.Name
				}
				return pkg.Name()
			}
		}
		alias := "gocv_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(pkg.Path())
		at := p.fset.Position(p.files[file].Name.End()).Offset
		e := edit{at, at, fmt.Sprintf("; import %s %q", alias, pkg.Path())}
		for _, x := range *es {
			if x.lo == at && strings.Contains(x.text, alias) {
				return alias
			}
		}
		for i := range *es {
			if (*es)[i].lo == at && (*es)[i].hi == at {
				(*es)[i].text += e.text
				return alias
			}
		}
		*es = append(*es, e)
		return alias
	}
}
