# Random small programs over two ints.
def program(R, n):
    out = ['package suriya\n']
    for k in range(n):
        out.append(fn(R, 'fg%d' % k))
    return '\n'.join(out)

def expr(R, vs, d=0):
    c = R.randint(0, 9 if d < 2 else 3)
    if c <= 1: return R.choice(vs)
    if c <= 3: return str(R.randint(0, 9))
    x, y = expr(R, vs, d+1), expr(R, vs, d+1)
    if c <= 5: return '(%s + %s)' % (x, y)
    if c <= 7: return '(%s - %s)' % (x, y)
    if c == 8: return '(%s %s %d)' % (x, R.choice('/%'), R.randint(2, 7))
    return '(%s * %d)' % (x, R.randint(-3, 3))

def cond(R, vs, d=0):
    c = R.randint(0, 7 if d < 2 else 4)
    if c <= 4: return '%s %s %s' % (expr(R, vs, 1), R.choice(['<', '<=', '==', '!=', '>', '>=']), expr(R, vs, 1))
    if c == 5: return '(%s && %s)' % (cond(R, vs, d+1), cond(R, vs, d+1))
    if c == 6: return '(%s || %s)' % (cond(R, vs, d+1), cond(R, vs, d+1))
    return '!(%s)' % cond(R, vs, d+1)

class G: pass

def fn(R, name):
    g = G(); g.n = 0; g.lists = []
    vs = ['a', 'b', 'x', 'y']
    b = ['\tx, y := %s, %s' % (expr(R, ['a', 'b']), expr(R, ['a', 'b'])), '\tvar l []int', '\t_, _, _ = x, y, l']
    for _ in range(R.randint(2, 4)):
        b += stmt(R, g, vs, 1, 0)
    b.append('\treturn %s' % R.choice([expr(R, vs), 'x', 'y', 'x*7 + y', 'len(l)', 'len(l) + x']))
    return 'func %s(a, b int) int {\n%s\n}\n' % (name, '\n'.join(b))

def stmt(R, g, vs, ind, loop):
    t = '\t'*ind
    c = R.randint(0, 11 if ind < 4 else 4)
    if c <= 1: return [t+'%s = %s' % (R.choice(['x', 'y']), expr(R, vs))]
    if c == 2: return [t+'%s %s= %s' % (R.choice(['x', 'y']), R.choice('+-'), R.choice([str(R.randint(1, 5)), 'a', 'b', 'x', 'y']))]
    if c == 3: return [t+'l = append(l, %s)' % expr(R, vs)]
    if c == 4:
        k = R.randint(0, 3)
        if loop and k == 0: return [t+'if %s {' % cond(R, vs), t+'\tbreak', t+'}']
        if loop and k == 1: return [t+'if %s {' % cond(R, vs), t+'\tcontinue', t+'}']
        if k == 2: return [t+'if %s {' % cond(R, vs), t+'\treturn %s' % expr(R, vs), t+'}']
        return [t+'if len(l) %s %d {' % (R.choice(['<', '>', '==']), R.randint(0, 4)), t+'\tx++', t+'}']
    def block(lo):
        r = []
        for _ in range(R.randint(1, 3)): r += stmt(R, g, vs, ind+1, lo)
        return r
    if c <= 7:
        r = [t+'if %s {' % cond(R, vs)] + block(loop)
        if R.random() < .5: r += [t+'} else {'] + block(loop)
        return r + [t+'}']
    g.n += 1
    i = 'i%d' % g.n
    vs2 = vs + [i]
    def lblock():
        r = []
        for _ in range(R.randint(1, 3)): r += stmt(R, g, vs2, ind+1, 1)
        return r
    k = R.randint(0, 3)
    if k == 0: h = 'for %s := 0; %s < %s; %s++ {' % (i, i, R.choice(['a', 'b', '5', 'x%9']), i)
    elif k == 1: h = 'for %s := %s; %s > %d; %s -= %d {' % (i, R.choice(['a', 'b', '6']), i, R.randint(-2, 3), i, R.randint(1, 3))
    elif k == 2: h = 'for %s := 0; %s < 8 && %s; %s += %d {' % (i, i, cond(R, vs), i, R.randint(1, 3))
    else: h = 'for %s := range l {' % i
    return [t+h, t+'\t_ = '+i] + lblock() + [t+'}']

# Programs over lists that may share their arrays.
LISTS = '''package suriya

type box struct {
	in []int
	n  int
}

func setFirst(l []int, v int) {
	if len(l) > 0 {
		l[0] = v
	}
}
func grow(l []int, v int) []int { return append(l, v) }
func (b *box) put(v int) {
	if len(b.in) == 0 {
		b.in = append(b.in, v)
	} else {
		b.in[len(b.in)-1] = v
	}
}
func (b box) peek() int {
	if len(b.in) > 0 {
		return b.in[0]
	}
	return -1
}
func first(l []int) int {
	if len(l) > 0 {
		return l[0]
	}
	return -1
}
func last(l []int) int {
	if len(l) > 0 {
		return l[len(l)-1]
	}
	return -1
}
'''

def lists(R, n):
    return LISTS + '\n'.join(lfn(R, 'fl%d' % k) for k in range(n))

def lfn(R, name):
    L = ['l', 'm', 'k']
    def e(): return R.choice(['a', 'b', 'a+b', str(R.randint(0, 9)), 'x'])
    def init(): return R.choice(['make([]int, 0, 5)', '[]int{1, 2}', '[]int{a}', '[]int(nil)', 'make([]int, 3)', 'make([]int, 1, 4)'])
    b = ['l, m, k := %s, %s, %s' % (init(), init(), init()), 'x := 3', 'var s, u box', 'var t []box', '_, _, _, _, _, _, _ = l, m, k, x, s, u, t']
    def lst(): return R.choice(L + ['s.in', 'u.in'])
    def stmt(d):
        c = R.randint(0, 21 if d < 2 else 17)
        p, q = lst(), lst()
        if c <= 1: return ['%s = append(%s, %s)' % (p, p, e())]
        if c == 2: return ['%s = append(%s, %s)' % (p, q, e())]
        if c == 3: return ['%s = %s' % (p, q)]
        if c <= 5: return ['if len(%s) > %d {' % (p, i), '\t%s[%d] = %s' % (p, i, e()), '}'] if (i := R.randint(0, 2)) >= 0 else []
        if c == 6: return ['setFirst(%s, %s)' % (p, e())]
        if c == 7: return ['%s = grow(%s, %s)' % (p, q, e())]
        if c == 8: return ['%s.put(%s)' % (R.choice('su'), e())]
        if c == 9: return [R.choice(['s = u', 'u = s', 's = box{l, 1}', 'u = box{in: m}'])]
        if c == 10: return ['t = append(t, %s)' % R.choice(['s', 'u', 'box{l, a}', 'box{in: []int{b}}'])]
        if c == 11: return ['if len(t) > 0 {', '\t%s' % R.choice(['t[0].put(%s)' % e(), 's = t[0]', 'm = t[0].in', 't[0].in = l', 't[0] = u', 't[0].n++', 'p := &t[len(t)-1]; p.put(%s)' % e(), 'x = t[0].peek()']), '}']
        if c == 12: return ['%s = append(%s[:0:0], %s...)' % (p, q, lst())] if R.random() < .5 else ['%s = append([]int{}, %s...)' % (p, q)]
        if c == 13: return ['if len(%s) > 1 {' % q, '\t%s = %s[%s]' % (p, q, R.choice(['1:', ':1', '1:2'])), '}']
        if c == 14: return ['x = %s(%s)' % (R.choice(['first', 'last', 'len']), p)]
        if c == 15: return ['%s = append(%s, %s...)' % (p, p, q)]
        if c == 16: return ['copy(%s, %s)' % (p, q)] if R.random() < .4 else ['x += %s' % e()]
        if c == 17: return ['for i := range %s {' % p, '\t%s[i] += %s' % (p, e()), '}']
        def block():
            r = []
            for _ in range(R.randint(1, 2)): r += ['\t'+z for z in stmt(d+1)]
            return r
        if c <= 19: return ['if %s %s %s {' % (e(), R.choice(['<', '>', '==']), e())] + block() + (['} else {'] + block() if R.random() < .5 else []) + ['}']
        if c == 20: return ['for i := 0; i < %s; i++ {' % R.choice(['3', 'a', '2'])] + block() + ['}']
        return ['for _, d := range t {', '\t' + R.choice(['d.put(%s)' % e(), 'x += d.peek()', 'd.n++', 'l = d.in']), '}']
    for _ in range(R.randint(3, 8)): b += stmt(0)
    p, q = lst(), lst()
    b.append('return %s' % R.choice(['first(%s)*100 + last(%s)' % (p, q), 'first(%s)*10 + len(%s)' % (p, q), 'x*100 + first(%s)' % p, 's.peek()*100 + last(%s)' % p]))
    return 'func %s(a, b int) int {\n\t%s\n}\n' % (name, '\n\t'.join(b))
