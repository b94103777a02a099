#!/usr/bin/env python3
"""usage: mut.py FILE [filter] : textual variants of /repo run through the claimed checks.
FILE is python: VARIANTS = [(name, expected ids ([] = must stay quiet), file, [(old, new), ...])]"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
def sh(cmd, cwd=None, env=None, t=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2] if len(sys.argv) > 2 else ''
only = os.environ.get('ONLY')
claimed = [os.path.basename(f)[:-3].upper() for f in sorted(os.listdir(V + '/sa/checks')) if f.startswith('c') and f.endswith('.py')]
if only: claimed = only.split(',')
def one(m):
    name, exp, file, reps = m
    w = tempfile.mkdtemp(prefix='mut-')
    try:
        sh('mkdir -p %s/repo && cp -a /repo/src /repo/Cargo.* %s/repo/' % (w, w))
        r = w + '/repo'
        reps = reps if isinstance(reps, list) else [reps]
        for rep in reps:
            fl, old, new = rep if len(rep) == 3 else (file,) + tuple(rep)
            p = r + '/src/' + fl
            s = open(p).read()
            if old not in s:
                return name, 'NOT APPLICABLE: %r' % old[:60], {}
            open(p, 'w').write(s.replace(old, new, 1))
        env = dict(os.environ, FOURLEAF_REPO=r, VERIF_EVIDENCE=w); env.pop('FOURLEAF_DUMP', None)
        rc, d = sh("cd %s/sa && python3 -c 'import build; print(build.dump(wide=True)[0])'" % V, env=env)
        d = d.strip().split('\n')
        if rc:
            rc, d2 = sh("cd %s/sa && python3 -c 'import build; print(build.dump()[0])'" % V, env=env)
            if rc: return name, 'BUILD ' + '\n'.join(d[-12:]), {}
            name += ' (narrow)'
            d = d2.strip().split('\n')
        env['FOURLEAF_DUMP'] = d[-1]
        hits = {}
        cs = exp if (os.environ.get('FAST') and exp) else claimed
        with ThreadPoolExecutor(max(1, 8 // min(len(ms), 7))) as ex2:
            outs = list(ex2.map(lambda c: sh('python3 sa/main.py %s' % c, V, env), cs))
        for c, (rc, o) in zip(cs, outs):
            if rc: hits[c] = [l for l in o.split('\n') if '@' in l][:3] or o.split('\n')[-3:]
        shutil.rmtree(os.path.dirname(d[-1]), ignore_errors=True)
        if not exp: st = 'quiet' if not hits else 'FALSE ALARM'
        else: st = 'caught' if set(exp) & set(hits) else 'MISSED'
        return name, st, hits
    finally:
        shutil.rmtree(w, ignore_errors=True)
ms = [m for m in ns['VARIANTS'] if any(f in m[0] for f in flt.split(','))]
with ThreadPoolExecutor(7) as ex:
    for name, st, hits in ex.map(one, ms):
        print('%-34s %-12s %s' % (name, st, ' '.join(hits)), flush=True)
        if st in ('FALSE ALARM',) or os.environ.get('SHOW'):
            for c, l in hits.items(): print('      ', c, l)
