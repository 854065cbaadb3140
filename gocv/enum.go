package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"math/bits"
	"strconv"
	"strings"
)

// Ground evaluation of specification expressions over int64: a lemma stated
// for a finite range of years is proved by evaluating it at every point.

type evalFn func(env []int64) int64

type enumC struct {
	v    *Verifier
	memo map[string]*memoFn
}

type memoFn struct {
	f    evalFn
	lo   int64
	val  []int64
	done []bool
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func fdiv64(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a%b < 0) != (b < 0) {
		q--
	}
	return q
}

func mul64(a, b int64) int64 {
	neg := (a < 0) != (b < 0)
	x, y := a, b
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	hi, lo := bits.Mul64(uint64(x), uint64(y))
	if hi != 0 || lo > 1<<62 {
		panic("overflow in ground evaluation")
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func (c *enumC) compile(x ast.Expr, idx map[string]int) evalFn {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return c.compile(x.X, idx)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			n, err := strconv.ParseInt(strings.ReplaceAll(x.Value, "_", ""), 0, 64)
			if err == nil {
				return func([]int64) int64 { return n }
			}
		}
	case *ast.Ident:
		if i, ok := idx[x.Name]; ok {
			return func(e []int64) int64 { return e[i] }
		}
		switch x.Name {
		case "true":
			return func([]int64) int64 { return 1 }
		case "false":
			return func([]int64) int64 { return 0 }
		case "DAY":
			return func([]int64) int64 { return nsDay }
		}
	case *ast.UnaryExpr:
		a := c.compile(x.X, idx)
		if x.Op == token.NOT {
			return func(e []int64) int64 { return 1 - a(e) }
		}
		if x.Op == token.SUB {
			return func(e []int64) int64 { return -a(e) }
		}
	case *ast.BinaryExpr:
		a, b := c.compile(x.X, idx), c.compile(x.Y, idx)
		switch x.Op {
		case token.LAND:
			return func(e []int64) int64 {
				if a(e) == 0 {
					return 0
				}
				return b(e)
			}
		case token.LOR:
			return func(e []int64) int64 {
				if a(e) != 0 {
					return 1
				}
				return b(e)
			}
		case token.ADD:
			return func(e []int64) int64 { return a(e) + b(e) }
		case token.SUB:
			return func(e []int64) int64 { return a(e) - b(e) }
		case token.MUL:
			return func(e []int64) int64 { return mul64(a(e), b(e)) }
		case token.EQL:
			return func(e []int64) int64 { return b2i(a(e) == b(e)) }
		case token.NEQ:
			return func(e []int64) int64 { return b2i(a(e) != b(e)) }
		case token.LSS:
			return func(e []int64) int64 { return b2i(a(e) < b(e)) }
		case token.LEQ:
			return func(e []int64) int64 { return b2i(a(e) <= b(e)) }
		case token.GTR:
			return func(e []int64) int64 { return b2i(a(e) > b(e)) }
		case token.GEQ:
			return func(e []int64) int64 { return b2i(a(e) >= b(e)) }
		}
	case *ast.CallExpr:
		name := x.Fun.(*ast.Ident).Name
		var as []evalFn
		if name != "forall" && name != "exists" {
			for _, a := range x.Args {
				as = append(as, c.compile(a, idx))
			}
		}
		switch name {
		case "fdiv":
			return func(e []int64) int64 { return fdiv64(as[0](e), as[1](e)) }
		case "fmod":
			return func(e []int64) int64 { a, b := as[0](e), as[1](e); return a - b*fdiv64(a, b) }
		case "implies":
			return func(e []int64) int64 {
				if as[0](e) == 0 {
					return 1
				}
				return as[1](e)
			}
		case "iff":
			return func(e []int64) int64 { return b2i((as[0](e) != 0) == (as[1](e) != 0)) }
		case "ite":
			return func(e []int64) int64 {
				if as[0](e) != 0 {
					return as[1](e)
				}
				return as[2](e)
			}
		case "abs":
			return func(e []int64) int64 {
				n := as[0](e)
				if n < 0 {
					return -n
				}
				return n
			}
		case "forall", "exists":
			id := x.Args[0].(*ast.Ident).Name
			lo, hi := c.compile(x.Args[1], idx), c.compile(x.Args[2], idx)
			m := map[string]int{}
			for k, i := range idx {
				m[k] = i
			}
			n := len(idx)
			m[id] = n
			body := c.compile(x.Args[3], m)
			all := name == "forall"
			return func(e []int64) int64 {
				e2 := append(append([]int64(nil), e[:n]...), 0)
				for i := lo(e); i < hi(e); i++ {
					e2[n] = i
					if (body(e2) != 0) != all {
						return b2i(!all)
					}
				}
				return b2i(all)
			}
		}
		if f, ok := c.v.specs[name]; ok && f.body != nil {
			g := c.fn(f)
			if len(as) == 1 {
				a := as[0]
				return func(e []int64) int64 { return g.at(a(e)) }
			}
			return func(e []int64) int64 {
				e2 := make([]int64, len(as))
				for i, a := range as {
					e2[i] = a(e)
				}
				return g.f(e2)
			}
		}
	}
	panic(fmt.Sprintf("ground evaluation cannot handle %s", exprStr(x)))
}

func (c *enumC) fn(f *SpecFn) *memoFn {
	if m, ok := c.memo[f.name]; ok {
		return m
	}
	m := &memoFn{lo: -1000}
	c.memo[f.name] = m
	idx := map[string]int{}
	for i, p := range f.params {
		idx[p] = i
	}
	m.f = c.compile(f.body, idx)
	return m
}

func (m *memoFn) at(y int64) int64 {
	i := y - m.lo
	if i < 0 || i > 2200000 {
		return m.f([]int64{y})
	}
	for int64(len(m.val)) <= i {
		n := 2*len(m.val) + 1024
		v, d := make([]int64, n), make([]bool, n)
		copy(v, m.val)
		copy(d, m.done)
		m.val, m.done = v, d
	}
	if !m.done[i] {
		m.val[i] = m.f([]int64{y})
		m.done[i] = true
	}
	return m.val[i]
}

// enumerate proves a lemma over its whole range; it returns the first point at
// which it fails.
func (c *enumC) enumerate(l *Lemma) (ok bool, at int64, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	if len(l.params) != 1 {
		return false, 0, fmt.Errorf("one parameter expected")
	}
	f := c.compile(l.stmt, map[string]int{l.params[0]: 0})
	env := []int64{0}
	for y := l.lo; y <= l.hi; y++ {
		env[0] = y
		if f(env) == 0 {
			return false, y, nil
		}
	}
	return true, 0, nil
}
