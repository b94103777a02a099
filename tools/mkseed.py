#!/usr/bin/env python3
"""usage: mkseed.py FILE : FILE is python defining SEEDS = [dict(id, prop, reps=[(file, old, new)], needs, breaks, main)]"""
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
ns = {}
exec(open(sys.argv[1]).read(), ns)
flt = sys.argv[2:]
for s in ns['SEEDS']:
    if flt and s['id'] not in flt: continue
    w = tempfile.mkdtemp(prefix='mk-')
    subprocess.check_call('mkdir %s/r && cp -a /repo/. %s/r/ && rm -rf %s/r/target' % (w, w, w), shell=True)
    for fl, old, new in s['reps']:
        p = '%s/r/src/%s' % (w, fl)
        t = open(p).read()
        if t.count(old) < 1: print('NOT FOUND', s['id'], repr(old)[:120]); break
        open(p, 'w').write(t.replace(old, new, 1))
    d = subprocess.check_output('git diff', shell=True, cwd=w + '/r', text=True)
    o = '%s/seeded/%s' % (V, s['id'])
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/main.rs', 'w').write(s['main'])
    shutil.copy(V + '/tools/demo.sh.tmpl', o + '/demo.sh')
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    print(s['id'])
