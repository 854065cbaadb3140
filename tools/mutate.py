#!/usr/bin/env python3
# Mutates every line of the sources in scope and reports the mutants no
# property notices (to be read by hand: most are equivalent).
# usage: mutate.py FILE...   (GOCV, JOBS from the environment)
import os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
G = os.environ.get('GOCV', '/verif/.bin/gocv')
V = os.environ.get('VERIF', '/verif')
PROPS = {
 'suriya.go': 'C01 C02 C12 C13', 'suriya_year.go': 'C01 C06 C07 C08 C10 C13 C14 C23', 'suriya_day.go': 'C02 C03 C04',
 'helpers.go': 'C05 C03 C12 C09 C10 C11 C21 C04 C14 C23', 'aeris_moon.go': 'C19', 'data.go': 'C20 C24', 'uposatha_moon.go': 'C15 C17 C21 C16',
 'cal_day.go': 'C22 C17 C18 C21 C16 C23', 'astro_moon.go': 'C19 C17 C21 C22', 'event.go': 'C17 C21', 'half_moon.go': 'C17 C21', 'major_event.go': 'C17 C21',
 'calendar_event.go': 'C21'}
SWAPS = [('==', '!='), ('!=', '=='), ('<=', '<'), ('>=', '>'), (' < ', ' <= '), (' > ', ' >= '), (' < ', ' > '), (' + ', ' - '), (' - ', ' + '),
 (' * ', ' / '), (' / ', ' * '), (' % ', ' / '), ('&&', '||'), ('||', '&&'), ('++', '--'), ('--', '++'), (' += ', ' -= '), (' -= ', ' += '),
 ('true', 'false'), ('false', 'true'), ('continue', 'break'), ('break', 'continue'), ('Before', 'After'), ('After', 'Before'), ('if !', 'if '), ('Floor', 'Ceil')]
def mutants(f):
    src = open('/repo/'+f).read().split('\n')
    infn = False; block = False
    for i, l in enumerate(src):
        if l.startswith('/*'): block = True
        if '*/' in l: block = False; continue
        if block: continue
        if l.startswith('func '): infn = True; continue
        if l.startswith('}'): infn = False; continue
        s = l.strip()
        if s.startswith('//') or s == '' or s in '{})': continue
        if len(l) > 400: continue
        code = l.split('//')[0] if '"' not in l else l
        seen = set()
        def out(n):
            if n != l and n not in seen:
                seen.add(n); return [(i, n)]
            return []
        if not infn and (f == 'data.go' or not re.search(r'\d', l)): continue
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                yield from out(code[:m.start()] + b + code[m.end():])
        for m in re.finditer(r'(?<![\w."])\d+(\.\d+)?(?![\w."])', code):
            v = m.group()
            for n in ([str(int(v)+1), str(int(v)-1)] if '.' not in v else [str(float(v)*1.01)]):
                yield from out(code[:m.start()] + n + code[m.end():])
        for m in re.finditer(r'"([^"]+)"', code):
            yield from out(code[:m.start()] + '"' + m.group(1)[:-1] + 'x"' + code[m.end():])
        if infn and not s.endswith('{') and not s.startswith('}') and not s.startswith('var') and ':=' not in s and not s.startswith('case') and s != 'default:' and not s.endswith(','):
            yield from out('\t_ = 0')
def check(t, v, f):
    # the registered checks: a mutant is 'replayed' when some check shows a failing input
    shutil.copytree(V, v, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replay'))
    best = None
    for p in PROPS[f].split():
        q = subprocess.run([v+'/check.sh', p, 'quick'], capture_output=True, text=True, env=dict(os.environ, GOCV_REPO=t))
        o = q.stdout+q.stderr
        if 'do not type-check' in o or 'imported and not used' in o or 'declared and not used' in o: return 'compile'
        m = re.search(r'^VIOLATION.*', o, re.M)
        if q.returncode not in (0, 1) or q.returncode == 1 and not m: return p+' broken '+o[-200:]
        if m and 'no-failing-input-found' not in m.group(): return p+' replayed'
        if m: best = p+' noinput '+(re.search(r'^ *not discharged.*', o, re.M) or m).group()[:150]
    return best
def run(job):
    f, i, n = job
    d = tempfile.mkdtemp(prefix='mut')
    t = d+'/repo'
    try:
        shutil.copytree('/repo', t, symlinks=True, ignore=shutil.ignore_patterns('.git', 'data', 'utils'))
        os.symlink('/repo/data', t+'/data')
        src = open(t+'/'+f).read().split('\n'); old = src[i]; src[i] = n
        open(t+'/'+f, 'w').write('\n'.join(src))
        if os.environ.get('CHECK'): return job, old, check(t, d+'/verif', f)
        how = None
        for p in PROPS[f].split():
            q = subprocess.run([G, '-repo', t, '-verif', V, '-prop', p, '-t', '5'], capture_output=True, text=True)
            o = q.stdout+q.stderr
            if 'do not type-check' in o or 'imported and not used' in o or 'declared and not used' in o or q.returncode == 2 and 'panic' not in o:
                return job, old, 'compile'
            m = re.search(r'^(failed|unknown|UNSUPPORTED|MISSING|CYCLE|panic|lemma \S+ +false|.*CONTRADICTORY).*', o, re.M)
            if m or q.returncode: return job, old, p + ' ' + (m.group()[:100] if m else 'exit')
        return job, old, None
    finally:
        shutil.rmtree(d)
def main():
    jobs = [(f, i, n) for f in sys.argv[1:] for i, n in mutants(f)]
    st = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for job, old, how in ex.map(run, jobs):
            k = 'missed' if how is None else 'compile' if how == 'compile' else how.split()[1]
            st[k] = st.get(k, 0)+1
            if how is None:
                print('MISSED %s:%d\n   - %s\n   + %s' % (job[0], job[1]+1, old.strip(), job[2].strip()), flush=True)
            elif k in ('UNSUPPORTED', 'panic', 'exit', 'noinput', 'broken'):
                print('%s %s:%d + %s | %s' % (k, job[0], job[1]+1, job[2].strip(), how), flush=True)
    print(sys.argv[1:], st)
main()
