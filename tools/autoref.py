#!/usr/bin/env python3
"""usage: autoref.py gen OUT.json | check IN.json OUT.log [kinds]
Mechanical behaviour-preserving edits of /repo (tools/autoref, built outside /verif): `gen` keeps those
that compile and pass the tests; `check` applies them in groups and requires every check to stay quiet.  Development only."""
import json, os, re, subprocess, sys, shutil, tempfile, queue, threading, signal
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
FILES = ['wire', 'stream', 'de', 'ser', 'unknown', 'retrofit', 'sugar', 'adapt', 'io']
SRC = {f: open('/repo/src/%s.rs' % f, 'rb').read() for f in FILES}
J = int(os.environ.get('J', '4'))
def run(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o = p.communicate(timeout=t)[0]; return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, ''
def applied(f, es):
    s = SRC[f]
    for e in sorted(es, key=lambda e: -e['start']): s = s[:e['start']] + e['new'].encode() + s[e['end']:]
    return s
def write(r, es):
    for f in FILES: open('%s/src/%s.rs' % (r, f), 'wb').write(applied(f, [e for e in es if e['file'] == f]))
def mk(): 
    w = tempfile.mkdtemp(prefix='ar-'); subprocess.run('mkdir -p %s/repo && cp -a /repo/. %s/repo/' % (w, w), shell=True); return w, w + '/repo'
def compiles(r, es):
    write(r, es)
    if es and all(e['file'] in ('sugar', 'retrofit') for e in es): return tests(r)   # macros: only their uses compile them
    return run('cargo check --offline -q --features "" --lib', r, 200)[0] == 0
def tests(r): return run('ulimit -v 8000000; cargo test --offline -q --lib -- --test-threads 4', r, 200)[0] == 0
def sift(r, es):
    """the edits that compile, by bisection (each alone)"""
    if not es: return []
    if compiles(r, es): return es
    if len(es) == 1: return []
    h = len(es) // 2
    return sift(r, es[:h]) + sift(r, es[h:])
def layers(es):
    es = sorted(es, key=lambda e: (e['end'] - e['start']))
    out = []
    for e in es:
        for l in out:
            if all(e['end'] <= x['start'] or x['end'] <= e['start'] or e['file'] != x['file'] for x in l): l.append(e); break
        else: out.append([e])
    return out
if sys.argv[1] == 'gen':
    b = '/tmp/autoref/target/release/autoref'
    es = []
    for f in FILES:
        for l in subprocess.run([b, '/repo/src/%s.rs' % f], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
            e = json.loads(l); e['file'] = f; es.append(e)
    # never inside the test module
    def intest(e):
        i = SRC[e['file']].find(b'#[cfg(test)]\nmod'); return i >= 0 and e['start'] > i
    es = [e for e in es if not intest(e)]
    kinds = sorted({(e['kind'], e['file']) for e in es})
    res = []; lock = threading.Lock(); q = queue.Queue(); [q.put(k) for k in kinds]
    def worker(_):
        w, r = mk()
        while True:
            try: k = q.get_nowait()
            except queue.Empty: break
            for n, l in enumerate(layers([e for e in es if (e['kind'], e['file']) == k])):
                g = sift(r, l)
                write(r, g)
                ok = not g or (compiles(r, g) and tests(r))
                with lock: res.append(dict(kind=k[0], file=k[1], layer=n, of=len(l), edits=g, ok=ok)); print(k, n, len(g), 'of', len(l), 'ok' if ok else 'TESTS FAIL', flush=True)
        shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(J) as ex: list(ex.map(worker, range(J)))
    json.dump(res, open(sys.argv[2], 'w'))
else:
    gs = [g for g in json.load(open(sys.argv[2])) if g['edits'] and g['ok']]
    sel = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    by = {}
    for g in gs:
        if sel and g['kind'] not in sel: continue
        by.setdefault((g['kind'], g['layer']), []).extend(g['edits'])
    claimed = sorted(f[:-3].upper() for f in os.listdir(V + '/sa/checks') if re.match(r'c\d\d\.py', f))
    if os.environ.get('ONLY'): claimed = os.environ['ONLY'].split(',')
    out = open(sys.argv[3], 'a')
    def one(k):
        w = tempfile.mkdtemp(prefix='mut-'); r = w + '/repo'
        try:
            subprocess.run('mkdir -p %s && cp -a /repo/src /repo/Cargo.* %s/' % (r, r), shell=True)
            write(r, by[k])
            env = dict(os.environ, FOURLEAF_REPO=r, VERIF_EVIDENCE=w); env.pop('FOURLEAF_DUMP', None)
            rc, d = run("python3 -c 'import build; print(build.dump(wide=True)[0])'", V + '/sa', 600, env)
            if rc: return k, ['NOWIDE ' + d[-1500:]]
            env['FOURLEAF_DUMP'] = d.strip().split('\n')[-1]
            bad = []
            for c in claimed:
                rc, o = run('python3 sa/main.py %s' % c, V, 900, env)
                if rc: bad.append('%s rc=%d' % (c, rc)); bad += ['    ' + l for l in o.split('\n') if '@' in l or 'Error' in l][:12]
            shutil.rmtree(os.path.dirname(env['FOURLEAF_DUMP']), ignore_errors=True)
            return k, bad
        finally: shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(J) as ex:
        for k, bad in ex.map(one, sorted(by, key=lambda k: (k[1], k[0]))):
            out.write('%s.%d (%d edits) %s\n' % (k[0], k[1], len(by[k]), 'quiet' if not bad else 'ALARM\n' + '\n'.join(bad))); out.flush()
