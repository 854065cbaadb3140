#!/usr/bin/env python3
# The verifier's own test. Every function is run in Go on samples; a contract
# that says a sample gives something else must be refused. (How many true ones
# are proved is reported too.)
import os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = os.environ.get('GOCV', V + '/.bin/gocv')
BIN = sys.argv[1] if len(sys.argv) > 1 else 'hand'
SEED = int(sys.argv[2]) if len(sys.argv) > 2 else 1
N = int(sys.argv[3]) if len(sys.argv) > 3 else 20
random.seed(SEED)
LO, HI = -6, 12

def main():
    d = tempfile.mkdtemp(prefix='selftest')
    os.makedirs(d+'/v/contracts'); os.symlink(V+'/stubs', d+'/v/stubs')
    r = d+'/repo'; os.makedirs(r)
    src = open(V+'/selftest/hand.go').read() if BIN == 'hand' else getattr(gen, {'gen': 'program'}.get(BIN, BIN))(random, N)
    open(r+'/f.go', 'w').write(src)
    fns = re.findall(r'^func (f\w+)\(a, b int\)', src, re.M)
    samples = {f: [(random.randint(LO, HI), random.randint(LO, HI)) for _ in range(4)] for f in fns}
    # what Go says
    g = d+'/run'; os.makedirs(g)
    body = ''.join('\ttry("%s", %d, %d, %s)\n' % (f, a, b, f) for f in fns for a, b in samples[f])
    open(g+'/main.go', 'w').write(src.replace('package suriya', 'package main', 1) + '''
func try(n string, a, b int, f func(a, b int) int) {
	defer func() {
		if x := recover(); x != nil {
			println(n, a, b, "panic")
		}
	}()
	println(n, a, b, f(a, b))
}
func main() {
''' + body + '}\n')
    subprocess.run(['go', 'build', '-o', 'm', 'main.go'], cwd=g, check=True, env=dict(os.environ, GO111MODULE='off'))
    q = subprocess.run(['bash', '-c', 'ulimit -v 4000000; timeout 20 ./m'], cwd=g, capture_output=True, text=True)
    if q.returncode:
        print(BIN, 'seed', SEED, 'skipped: runs too long'); shutil.rmtree(d); return
    out = {}
    for l in q.stderr.split('\n'):
        w = l.split()
        if len(w) == 4: out[(w[0], int(w[1]), int(w[2]))] = w[3]
    if not out: print(q.stderr); sys.exit(1)
    spec = ''
    for f in fns:
        spec += 'func %s(a, b)\n  props G B\n  requires %d <= a && a <= %d && %d <= b && b <= %d\n' % (f, LO, HI, LO, HI)
        if f == 'fGlobal': spec += '  modifies counter\n'
        ts = set()
        for a, b in samples[f]:
            v = out[(f, a, b)]
            if v == 'panic': v = None
            if (a, b) in ts: continue
            ts.add((a, b))
            if v is None:
                spec += '  ensures[B] implies(a == %d && b == %d, result == 1234567)\n' % (a, b)
                continue
            spec += '  ensures[G] implies(a == %d && b == %d, result == %s)\n' % (a, b, v)
            spec += '  ensures[B] implies(a == %d && b == %d, result != %s)\n' % (a, b, v)
        spec += '\n'
    open(d+'/v/contracts/s.spec', 'w').write(spec)
    bad = 0
    for p in 'G', 'B':
        q = subprocess.run([G, '-repo', r, '-verif', d+'/v', '-prop', p, '-t', '2', '-v'], capture_output=True, text=True)
        per = {}
        for l in (q.stdout+q.stderr).split('\n'):
            m = re.match(r'(proved|failed|unknown)\s.*?(f\w+)#post\d+ .*\[(.*?)\]', l)
            if m: per.setdefault(m[2], []).append((m[1], m[3]))
            m = re.match(r'UNSUPPORTED (\S+): (.*)', l)
            if m: per.setdefault(m[1], []).append(('unsupported', m[2]))
        if q.returncode: print(p, q.returncode, q.stdout[-2000:], q.stderr[-2000:])
        n = sum(len(x) for x in per.values()); ok = sum(1 for x in per.values() for y in x if y[0] == 'proved')
        if p == 'G':
            print('%s seed %d: %d functions; true contracts: %d proved of %d' % (BIN, SEED, len(fns), ok, n))
            if BIN == 'hand' or os.environ.get('SHOW'):
                for f in fns:
                    x = [y for y in per.get(f, [('none', '')]) if y[0] != 'proved']
                    if x: print('   ', f, sorted(set(y[0] for y in x)), x[0][1] if x[0][0] == 'unsupported' else '')
        else:
            for f, xs in per.items():
                for st, what in xs:
                    # an obligation on a panic may rightly be refused instead
                    if st == 'proved': bad += 1; print('UNSOUND', f, what)
            print('%s seed %d: false contracts: %d refused of %d' % (BIN, SEED, n-ok, n))
    if bad: print('kept', d); sys.exit(1)
    shutil.rmtree(d)
main()
