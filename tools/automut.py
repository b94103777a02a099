#!/usr/bin/env python3
"""usage: automut.py gen OUT.json | test IN.json OUT.json | check IN.json OUT.log
Mechanical mutants of /repo's non-test source: `test` keeps those that compile and pass the tests,
`check` runs the claimed checks on these.  Development only."""
import json, os, re, subprocess, sys, shutil, tempfile, signal, random
from concurrent.futures import ThreadPoolExecutor
import queue, threading
V = '/verif'
FILES = ['wire.rs', 'stream.rs', 'de.rs', 'ser.rs', 'unknown.rs', 'retrofit.rs', 'sugar.rs', 'adapt.rs', 'io.rs']
SUBST = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
         (r' < ', ' > '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' && ', ' || '), (r' \|\| ', ' && '),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bmin\(', '::std::cmp::max('),
         (r' as u64\b', ' as u32 as u64'), (r' as usize\b', ' as u16 as usize'), (r' as i64\b', ' as i32 as i64'),
         (r'\.remaining\(\)', '.len()'), (r'\.len\(\)', '.remaining()'), (r'start_pos\(\)', 'stream_pos()'),
         (r'stream_pos\(\)', 'start_pos()'), (r'inner_pos\(\)', 'len()'), (r'end_pos\(\)', 'stream_pos()'),
         (r'\bself\.pos\b', 'self.blob_end'), (r'\bblob_end\b', 'pos'), (r'\bsubcontext\b', '$context'),
         (r'\$field\.pos', '$context.pos'), (r'_field\.pos', '0'), (r'serialize_element', 'serialize_field'),
         (r'serialize_field', 'serialize_element'), (r'serialize_body', 'serialize_element'), (r'deserialize_element', 'deserialize_body'),
         (r'is_some\(\)', 'is_none()'), (r'is_ok\(\)', 'is_err()'), (r'max_blob', 'max_collect'), (r'max_collect', 'max_blob'),
         (r'collected', 'total_blob'), (r'total_blob', 'collected'), (r'\bBlob\b', 'Struct'), (r'\bStruct\b', 'Enum'), (r'\bEnum\b', 'Struct'),
         (r'EndOfStruct', 'EndOfDoc'), (r'EndOfDoc', 'EndOfStruct'), (r'Padding', 'EndOfStruct'), (r'write_all', 'write'),
         (r'read_exact', 'read'), (r'push_back', 'push_front'), (r'MIN\b', 'MAX'), (r'MAX\b', 'MIN'),
         (r'Copying', 'ZeroCopy'), (r'ZeroCopy', 'Copying'), (r'FieldOccursTooManyTimes', 'FieldOccursTooFewTimes'),
         (r'FieldOccursTooFewTimes', 'FieldOccursTooManyTimes'), (r'RequiredFieldMissing', 'MaxBlobExceeded'),
         (r'\bzigzag\b', 'id'), (r'\bunzigzag\b', 'id'), (r'\bid\b', 'zigzag'), (r'graceful_eof\b', 'eof'), (r'track\(true\)', 'track(false)'), (r'track\(false\)', 'track(true)'),
         (r'\btag\b', '1'), (r'\bn\b', '0'), (r'encode_fixed_u64', 'encode_u64'), (r'encode_u64', 'encode_fixed_u64'),
         (r'\?;$', ';'), (r'\.unwrap\(\)', '.unwrap_or_default()'), (r'dst\.', 'let _ = dst.'), (r'Ok\(\(\)\)', 'return Ok(())'),
         (r'&\[\.\.', '&[1..'), (r'wrapping_neg\(\)', 'saturating_neg()'), (r'checked_', 'wrapping_'), (r'Current\b', 'Start'), (r'<< ', '>> '), (r' & ', ' | '), (r' \| ', ' & '), (r' \^ ', ' | ')]
ORDER = {'wire.rs': 'C01 C02 C03', 'stream.rs': 'C04 C06 C02 C09 C08 C05 C07 C26 C18', 'de.rs': 'C12 C24 C16 C20 C21 C13 C14 C15 C23 C19',
         'ser.rs': 'C10 C11 C23', 'unknown.rs': 'C17 C10 C11', 'sugar.rs': 'C22 C10 C11', 'retrofit.rs': 'C11 C22 C24', 'adapt.rs': 'C19 C11', 'io.rs': 'C26'}
def gen():
    out = []
    for fl in FILES:
        src = open('/repo/src/' + fl).read().split('\n')
        end = next((i for i, l in enumerate(src) if l.startswith('#[cfg(test)]')), len(src))
        for i in range(end):
            l = src[i]; s = l.strip()
            if s.startswith('//') or not s or s.startswith(('#[', 'use ', 'pub fn', 'fn ', 'impl')): continue
            if re.match(r'(des|ser)_(small_array|large_array|tuple|array)!', s) or 'deserialize_array_' in s: continue
            c = []
            for a, b in SUBST:
                for m in re.finditer(a, l):
                    c.append(l[:m.start()] + b + l[m.end():])
            for m in re.finditer(r'\b(\d+)\b', l):
                if re.search(r'[a-z_\.]$', l[:m.start()]): continue
                n = int(m.group(1))
                c.append(l[:m.start()] + str(n + 1) + l[m.end():])
                if n: c.append(l[:m.start()] + str(n - 1) + l[m.end():])
            m = re.match(r'^(\s*)(\} else )?if (?!let)(.*) \{$', l)
            if m: c.append('%s%sif !(%s) {' % (m.group(1), m.group(2) or '', m.group(3)))
            if re.match(r'^\s*[a-z\*\$].*;$', l) and not s.startswith(('let ', 'return', 'break')) and l.count('(') == l.count(')'):
                c.append(re.match(r'\s*', l).group(0) + ';')
                if s.endswith('?;'): c.append(re.match(r'\s*', l).group(0) + 'let _ = ' + s[:-2] + ';')
            for x in dict.fromkeys(c):
                if x != l: out.append(dict(file=fl, line=i, old=l, new=x))
    return out
def build_apply(r, m):
    p = '%s/src/%s' % (r, m['file'])
    L = open('/repo/src/' + m['file']).read().split('\n')
    assert L[m['line']] == m['old']
    L[m['line']] = m['new']
    open(p, 'w').write('\n'.join(L))
def restore(r, m): shutil.copy('/repo/src/' + m['file'], '%s/src/%s' % (r, m['file']))
def run(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o = p.communicate(timeout=t)[0]; return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 124, ''
if sys.argv[1] == 'gen':
    o = gen(); random.Random(1).shuffle(o)
    json.dump(o, open(sys.argv[2], 'w')); print(len(o))
elif sys.argv[1] == 'test':
    ms = json.load(open(sys.argv[2]))
    q = queue.Queue(); [q.put(m) for m in ms]
    alive = []; cnt = [0, 0, 0]; lock = threading.Lock()
    def worker(k):
        w = tempfile.mkdtemp(prefix='am-'); r = w + '/repo'
        subprocess.run('mkdir -p %s && cp -a /repo/. %s/' % (r, r), shell=True)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            build_apply(r, m)
            rc, o = run('cargo check --offline -q', r, 120)
            if rc: cnt[0] += 1
            else:
                rc, o = run('ulimit -v 8000000; cargo test --offline -q --lib -- --test-threads 4', r, 90)
                if rc: cnt[1] += 1
                else:
                    with lock:
                        alive.append(m); cnt[2] += 1
                        json.dump(alive, open(sys.argv[3], 'w'))
            restore(r, m)
        shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(6) as ex: list(ex.map(worker, range(6)))
    print('no compile %d, killed by tests %d, alive %d' % tuple(cnt))
elif sys.argv[1] == 'check':
    ms = json.load(open(sys.argv[2]))
    claimed = sorted(f[:-3].upper() for f in os.listdir(V + '/sa/checks') if re.match(r'c\d\d\.py', f))
    out = open(sys.argv[3], 'a')
    def one(m):
        w = tempfile.mkdtemp(prefix='mut-'); r = w + '/repo'
        try:
            subprocess.run('mkdir -p %s && cp -a /repo/src /repo/Cargo.* %s/' % (r, r), shell=True)
            build_apply(r, m)
            env = dict(os.environ, FOURLEAF_REPO=r, VERIF_EVIDENCE=w); env.pop('FOURLEAF_DUMP', None)
            rc, d = run("python3 -c 'import build; print(build.dump(wide=True)[0])'", V + '/sa', 600, env)
            if rc: return m, 'NOWIDE', []
            env['FOURLEAF_DUMP'] = d.strip().split('\n')[-1]
            hits = []
            first = ORDER[m['file']].split()
            for c in first + [c for c in claimed if c not in first]:
                if hits: break
                rc, o = run('python3 sa/main.py %s' % c, V, 900, env)
                if rc: hits.append(c)
            shutil.rmtree(os.path.dirname(env['FOURLEAF_DUMP']), ignore_errors=True)
            return m, 'caught' if hits else 'SURVIVES', hits
        finally: shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for m, st, h in ex.map(one, ms):
            out.write('%s %s:%d %s\n    - %s\n    + %s\n' % (st, m['file'], m['line'] + 1, ' '.join(h), m['old'].strip(), m['new'].strip())); out.flush()
