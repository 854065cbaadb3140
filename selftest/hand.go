package suriya

import (
	"math"
	"strings"
	"time"
)

// Functions for the verifier's own test: each is run on samples, and the
// verifier has to refuse every contract that contradicts what running gives.

type pair struct{ a, b int }

func fAppendUntil3(a, b int) int {
	var l []int
	for len(l) < 3 {
		l = append(l, a)
	}
	return len(l) + b
}

func fAppendWhile(a, b int) int {
	var l []int
	for i := 0; i < a; i++ {
		if i%2 == b {
			continue
		}
		l = append(l, i*i)
	}
	return len(l)
}

func fBreakMid(a, b int) int {
	s := 0
	for i := 0; i < a; i++ {
		if i == b {
			break
		}
		s += 2
	}
	return s
}

func fBreakLen(a, b int) int {
	var l []int
	for i := 0; i < a; i++ {
		l = append(l, i)
		if len(l) > b {
			break
		}
	}
	return len(l)
}

func fReturnInLoop(a, b int) int {
	for i := a; i > 0; i-- {
		if i*i < b {
			return i
		}
	}
	return -1
}

func fNested(a, b int) int {
	n := 0
	for i := 0; i < a; i++ {
		for j := 0; j < i; j++ {
			n++
		}
		n += b
	}
	return n
}

func fLabel(a, b int) int {
	n := 0
outer:
	for i := 0; i < a; i++ {
		for j := 0; j < a; j++ {
			if j > b {
				continue outer
			}
			if i+j > 9 {
				break outer
			}
			n++
		}
	}
	return n
}

func fDownUp(a, b int) int {
	d := 1
	if a > b {
		d = -1
	}
	n := 0
	for x := a; x != b; x += d {
		n++
	}
	return n * d
}

func fTwoVars(a, b int) int {
	x, y := 0, 100
	for x < a {
		x += 3
		y -= b
		x, y = x-1, y+1
	}
	return x*1000 + y
}

func fFlag(a, b int) int {
	found := -1
	i := 0
	for found < 0 && i < 10 {
		if a+i*b > 20 {
			found = i
		}
		i++
	}
	return found
}

func fAlias(a, b int) int {
	p := &pair{a, b}
	q := p
	q.a = b + 1
	r := *p
	r.b = 7
	return p.a*100 + p.b*10 + r.b
}

func bump(p *int, n int) int {
	*p += n
	return *p
}

func fPtr(a, b int) int {
	x := a
	y := bump(&x, b) + x
	return y*10 + x
}

func fClosure(a, b int) int {
	n := 0
	add := func(k int) { n += k }
	add(a)
	b++
	add(b)
	return n
}

func fDefer(a, b int) (r int) {
	defer func() { r += b }()
	return a * 2
}

func fSwitch(a, b int) int {
	switch {
	case a > b:
		return 1
	case a == b:
		fallthrough
	case a < -3:
		return 2
	}
	switch a {
	case 1, 2:
		return 3
	default:
		return 4
	}
}

var table = map[int]int{1: 10, 3: 30, 5: 50}

func fMap(a, b int) int {
	v, ok := table[a]
	if !ok {
		v = -1
	}
	return v + table[b]
}

func fDivMod(a, b int) int {
	return a/3*100 + a%3*10 + b%7 + (-b)/4
}

func fShortCircuit(a, b int) int {
	n := 0
	inc := func() bool { n++; return true }
	if a > 0 && inc() || b > 0 && inc() {
		n += 10
	}
	return n
}

func fFloat(a, b int) int {
	x := float64(a) / 7
	y := math.Floor(x*float64(b)) + math.Abs(float64(b))
	return int(y) + int(float64(a)/4)
}

func fFloatTrunc(a, b int) int {
	return int(float64(-a)/3) + int(math.Floor(float64(b)/-3))
}

func fTime(a, b int) int {
	t := time.Date(2015, time.November, 25, 0, 0, 0, 0, time.UTC)
	t = t.AddDate(0, 0, a).Add(time.Duration(b) * 24 * time.Hour)
	return t.Year()*10000 + t.YearDay()
}

func fTimeCmp(a, b int) int {
	t := time.Date(2000, time.March, a, 0, 0, 0, 0, time.UTC)
	u := time.Date(2000, time.February, b, 0, 0, 0, 0, time.UTC)
	if t.Before(u) {
		return 1
	}
	if t.Equal(u) {
		return 2
	}
	return 3
}

func fString(a, b int) int {
	s := "x"
	if a > 2 {
		s = "abc"
	}
	if b > 2 {
		s = s + ""
	}
	if s == "abc" {
		return 1
	}
	if strings.ToUpper(s) == s {
		return 2
	}
	return len(s)
}

func fSliceIndex(a, b int) int {
	l := []int{3, 1, 4, 1, 5}
	l[1] = a
	if a > 0 && a < 5 {
		return l[a] + l[1]
	}
	return l[0]
}

func fSliceOfStruct(a, b int) int {
	l := []pair{{a, b}, {b, a}}
	p := &l[1]
	p.a += 5
	l = append(l, pair{1, 2})
	return l[1].a + len(l)*100 + l[2].b
}

func fRangeCopy(a, b int) int {
	l := []pair{{a, b}, {b, a}}
	for _, p := range l {
		p.a = 99
	}
	n := 0
	for i := range l {
		l[i].b += i
		n += l[i].a + l[i].b
	}
	return n
}

func fStructEq(a, b int) int {
	x, y := pair{a, b}, pair{b, a}
	if x == y {
		return 1
	}
	return 0
}

type shape interface{ area() int }
type sq struct{ s int }
type rc struct{ w, h int }

func (s sq) area() int { return s.s * s.s }
func (r rc) area() int { return r.w*2 + r.h }

func fIface(a, b int) int {
	var s shape = sq{a % 5}
	if a > b {
		s = rc{a % 3, b % 3}
	}
	if r, ok := s.(rc); ok {
		return r.area() + 100
	}
	return s.area()
}

func fIfaceList(a, b int) int {
	l := []shape{sq{2}, rc{1, 2}}
	n := 0
	for _, s := range l {
		n += s.area()
		switch s.(type) {
		case sq:
			n += a
		case rc:
			n += b
		}
	}
	return n
}

var counter int

func fGlobal(a, b int) int {
	counter = a
	bumpCounter(b)
	return counter
}

func bumpCounter(n int) { counter += n }

func fGuardedAppend(a, b int) int {
	var l []int
	if a > 0 {
		l = append(l, a)
	}
	if b > 0 {
		l = append(l, b)
	}
	if len(l) == 2 {
		return l[1]*10 + l[0]
	}
	if len(l) == 1 {
		return l[0]
	}
	return -5
}

func fWhileHalve(a, b int) int {
	n := 0
	for a > 1 {
		a = a / 2
		n++
	}
	return n + b
}

func fAccumLast(a, b int) int {
	last := 0
	for i := 0; i < a; i++ {
		last = i * b
	}
	return last
}

func fCondStep(a, b int) int {
	x := 0
	for i := 0; i < a; i++ {
		if x < b {
			x += 2
		} else {
			x -= 3
		}
	}
	return x
}

func fDeferEarly(a, b int) (r int) {
	if a < 0 {
		r = b
		return
	}
	defer func() { r *= 2 }()
	r = a
	if b > 3 {
		return r + b
	}
	defer dbl(&r, a)
	a = 100
	return r - b
}

func dbl(p *int, k int) { *p = *p + k }

func fDeferOrder(a, b int) (r int) {
	defer func() { r = r*10 + 1 }()
	defer func() { r = r*10 + 2 }()
	return a + b
}

type dacc struct{ n int }

func (d *dacc) add(k int) { d.n += k }

func fDeferMethod(a, b int) int {
	d := &dacc{a}
	e := d
	func() {
		defer d.add(b)
		d = &dacc{7}
		b = 50
	}()
	return e.n*100 + d.n
}

func fDeferCond(a, b int) (r int) {
	defer func() { r = r*10 + 3 }()
	if a > b {
		defer func() { r += a }()
	} else if a < 0 {
		k := b
		defer func() { r -= k }()
		defer func() { r *= 2 }()
	}
	r = 5
	if b > 7 {
		return b
	}
	return
}

// two appends to the same list, with and without room behind it
func fAppendTwice(a, b int) int {
	x := make([]int, 0, 4)
	y := append(x, a)
	z := append(x, b)
	return y[0]*100 + z[0]
}

func fAppendGrown(a, b int) int {
	x := append([]int{1, 2, 3}, a)
	x = append(x, b)
	y := x
	x[0] = 9
	return y[0]*1000 + y[3]*100 + y[4]
}

type nest struct{ in []int }

func fNestedCopy(a, b int) int {
	l := []nest{{[]int{a}}, {nil}}
	m := l[0].in
	m[0] = b
	return l[0].in[0]
}

func fNestedStruct(a, b int) int {
	l := []nest{{[]int{a}}}
	for _, e := range l {
		e.in[0] += b
	}
	return l[0].in[0]
}

func fNestedStore(a, b int) int {
	k := []int{a}
	l := []nest{{k}}
	k[0] = b
	return l[0].in[0]
}

func fNestedRead(a, b int) int {
	l := []nest{{[]int{a}}}
	m := l[0].in
	l[0].in[0] = b
	return m[0]
}

func fNestedPtr(a, b int) int {
	l := []nest{{[]int{a}}, {[]int{b}}}
	p := &l[1]
	p.in[0] = a + b
	l[0].in = append(l[0].in, 5)
	return l[1].in[0]*10 + len(l[0].in)
}

func fAppendLoop(a, b int) int {
	x := make([]int, 0, 9)
	y := x
	for i := 0; i < 3; i++ {
		x = append(x, a+i)
	}
	y = append(y, b)
	return x[0]
}
