#!/usr/bin/env python3
"""usage: seed.py ID... : validates seeded bugs in a scratch copy and runs the claimed checks on them.
   seed.py --only C04,C05 ID..."""
import json, os, subprocess, sys, shutil, tempfile
V = '/verif'
def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def main():
    args = sys.argv[1:]
    only = None; novalid = False
    if args and args[0] == '--only':
        only = args[1].split(','); args = args[2:]
    if args and args[0] == '--fast':
        novalid = True; args = args[1:]
    claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for i in args:
        d = '%s/seeded/%s' % (V, i)
        meta = json.load(open(d + '/meta.json'))
        w = tempfile.mkdtemp(prefix='seed-')
        r = w + '/repo'
        sh('cp -a /repo %s' % r)
        msgs = []
        if not novalid:
            rc, o = sh('bash %s/demo.sh' % d, r)
            msgs.append('demo-clean=%d' % rc)
            if rc: msgs.append(o[-500:])
        rc, o = sh('git apply %s/patch.diff' % d, r)
        if rc: msgs.append('APPLY FAILED ' + o)
        if not novalid:
            rc, o = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', r)
            bad = [l for l in o.split('\n') if l.endswith('FAILED') or l.startswith('error')]
            msgs.append('tests=%d %s' % (rc, bad[:5]))
            rc, o = sh('bash %s/demo.sh' % d, r)
            msgs.append('demo-bug=%d' % rc)
        env = dict(os.environ, FOURLEAF_REPO=r); env.pop('FOURLEAF_DUMP', None)
        rc, dump = sh("cd %s/sa && python3 -c 'import build; print(build.dump(wide=True)[0])'" % V, env=env)
        dump = dump.strip().split('\n')[-1]
        env['FOURLEAF_DUMP'] = dump
        hits = []
        from concurrent.futures import ThreadPoolExecutor
        cs = only or claimed
        with ThreadPoolExecutor(8) as ex:
            for c, (rc, o) in zip(cs, ex.map(lambda c: sh('VERIF_EVIDENCE=%s python3 sa/main.py %s' % (w, c), V, env), cs)):
                if rc: hits.append(c)
                if c == meta['property']:
                    first = [l for l in o.split('\n') if '@' in l][:3]
        tgt = meta['property']
        print('%s [%s] %s -> %s by %s' % (i, tgt, ' '.join(msgs), 'CAUGHT' if tgt in hits else 'MISSED', hits), flush=True)
        if tgt in hits:
            print('      ', first[:2])
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(os.path.dirname(dump), ignore_errors=True)
main()
