"""C05: the blob in progress is settled before anything else happens to the stream."""
from streamlib import *

# operations that may legitimately leave the pending settlement alone although
# they touch the underlying object: none.  Everything public is covered.
TOUCH = {'encode_descriptor', 'encode_u64', 'encode_fixed_u64', 'decode_descriptor', 'decode_u64',
         'read', 'read_exact', 'read_to_end', 'write', 'write_all', 'fill_buf', 'consume', 'seek',
         'seekfn', 'copy', 'flush'}


def public_ops(D):
    """public inherent methods of Stream taking &mut self or self, and of Field"""
    res = []
    for r in D.roots:
        p = r['path']
        if not (r['vis'] and r['reach']) or r['derived'] or str(r['inst']) not in D.bodies:
            continue
        if p.startswith(S):
            res.append(p)
    return res


def run(ck):
    L = Lib(ck)
    D = ck.D
    ops = public_ops(D)
    n = touched = 0
    for p in ops:
        b = D.bodies[str(root(D, p)['inst'])]
        if not b['argc'] or not is_stream_ref(D, b['locals'][1]):
            continue
        n += 1
        touched += one(ck, L, p)
    ck.floor('public stream operations', n, 36)
    ck.floor('operations that reach the underlying object', touched, 26)
    slot_writers(ck, L, ops)


def is_stream_ref(D, ty):
    t = D.tys[ty]
    if t['k'] != 'ref':
        return False
    a = D.tys[t['t']]
    return a['k'] == 'adt' and a['path'] == STREAM


def one(ck, L, path):
    def pre(e, st, args, addr, env):
        d = env.fld(e, st, addr, L.R.depth)
        st.f = st.f.assume(e.lt(d, C(1 << 63, 'u64')), True)
    r = L.run(path, 'stream', pre=pre)
    e = r.e
    touched = False
    s0, v0 = L.slot(r, r.st0)
    for o in r.rets():
        good, val = result_of(e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        settled = None
        bad = None
        for i, ev in enumerate(evs):
            if ev.name == 'commit':
                if settled is None:
                    settled = ev.x['ok']
                    if not ev.x['ok']:
                        if i != len(evs) - 1:
                            bad = 'I/O continues (%s) although settling the previous blob failed' % evs[i + 1].name
                            break
                        if good is not False or not contains(val, ev.x['err']):
                            bad = 'the failure to settle the previous blob is not returned'
                            break
                continue
            if ev.name in TOUCH and settled is None:
                touched = True
                # nothing pending on this path?
                st = L.at_event(ev)
                s, v = L.slot(r, st)
                if s != SLOT_NONE and not entails_none(e, o, v0):
                    bad = '%s reaches the underlying object while a blob may be unsettled' % ev.name
                    break
            elif ev.name in TOUCH:
                touched = True
        ck.ob('settled-first', r.name, bad is None, bad, r.at)
        # what the slot holds afterwards
        s, v = L.slot(r, o.st)
        bad = None
        commits = [ev for ev in evs if ev.name == 'commit']
        made = blob_made(L, r, o)
        if commits and not commits[0].x['ok']:
            pass          # documented: continued use after an error is not defined
        elif made:
            if s != SLOT_SOME or v is v0:
                bad = 'a blob is handed out but no settlement is pending for it'
        elif commits or entails_none(e, o, v0):
            if s == SLOT_SOME and not opened(evs):
                bad = 'a settlement is pending although no blob was opened'
        else:
            if v is not v0 and s != SLOT_NONE:
                bad = 'the pending settlement was replaced without being run'
            elif s == SLOT_NONE and v is not v0:
                bad = 'the pending settlement was dropped without being run'
        ck.ob('pending-kept', r.name, bad is None, bad, r.at)
    return touched


def entails_none(e, o, v0):
    t = e.discr(v0, 'isize')
    return o.st.f.known.get(t) == 0


def opened(evs):
    """a blob header was produced or consumed on this path"""
    return any(ev.name in ('encode_u64', 'encode_fixed_u64', 'decode_u64') and ev.x['ok'] for ev in evs)


def blob_made(L, r, o):
    """is there a blob handle on this stream inside the value returned"""
    def walk(v, d=0):
        if v.op != 'agg' or d > 8:
            return False
        if v.a[0] == BLOB:
            return r.e.addr_of(r.e.proj(v, ('f', L.R.blob_stream))) == r.addr
        return any(isinstance(x, T) and walk(x, d + 1) for x in v.a[2:])
    return walk(o.val)


def slot_writers(ck, L, ops):
    """commit() itself: runs exactly the pending operation, then clears it"""
    r = L.run(S + 'commit', 'stream')
    e = r.e
    n = 0
    _, v0 = L.slot(r, r.st0)
    for o in r.rets():
        n += 1
        good, val = result_of(e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        s, v = L.slot(r, o.st)
        if not evs:
            ck.ob('commit-runs', r.name, good is True and entails_none(e, o, v0),
                  'commit does nothing although a blob may be pending', r.at)
            continue
        ev = evs[0]
        okk = len(evs) == 1 and ev.name == 'commit' and ev.x['ok'] == good
        ck.ob('commit-runs', r.name, okk, 'commit does not run exactly the pending settlement', r.at)
        if good:
            ck.ob('commit-clears', r.name, s == SLOT_NONE,
                  'the settlement stays pending after it succeeded', r.at)
    ck.floor('outcomes of commit', n, 3)

