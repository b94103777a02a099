#!/usr/bin/env python3
"""usage: mkdump.py FILE NAME OUT.json : dump of one variant of a battery (development)"""
import os, sys, subprocess, tempfile, shutil
ns = {}
exec(open(sys.argv[1]).read(), ns)
name, exp, file, reps = [v for v in ns['VARIANTS'] if v[0] == sys.argv[2]][0]
w = tempfile.mkdtemp(prefix='mut-')
subprocess.run('mkdir -p %s/repo && cp -a /repo/src /repo/Cargo.* %s/repo/' % (w, w), shell=True)
for rep in reps if isinstance(reps, list) else [reps]:
    fl, old, new = rep if len(rep) == 3 else (file,) + tuple(rep)
    p = w + '/repo/src/' + fl
    s = open(p).read()
    assert old in s, old
    open(p, 'w').write(s.replace(old, new, 1))
env = dict(os.environ, FOURLEAF_REPO=w + '/repo'); env.pop('FOURLEAF_DUMP', None)
d = subprocess.check_output(['python3', '-c', 'import build; print(build.dump(wide=True)[0])'], cwd='/verif/sa', env=env, text=True).strip().split('\n')[-1]
shutil.copy(d, sys.argv[3])
shutil.rmtree(os.path.dirname(d)); shutil.rmtree(w)
