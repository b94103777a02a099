"""C07: the logical position follows the underlying byte stream exactly and never overflows."""
from streamlib import *
from checks.c04 import lin_eq
from checks.c05 import is_stream_ref
from checks.c06 import le, add, sub, lin_same

# documented to move only the logical position
LOGICAL = {'set_pos', 'reset_pos', 'stream_set_pos'}


def run(ck):
    L = Lib(ck)
    D = ck.D
    n = moving = 0
    for x in D.roots:
        p = x['path']
        if x['derived'] or str(x['inst']) not in D.bodies:
            continue
        kind = None
        b = D.bodies[str(x['inst'])]
        if not b['argc']:
            continue
        if p.startswith(S) and is_stream_ref(D, b['locals'][1]):
            kind = 'stream'
        elif p.startswith((B, '<fourleaf::stream::Blob<')) and is_blob_ref(D, b['locals'][1]):
            kind = 'blob'
        elif x['name'] in ('read', 'write', 'consume', 'fill_buf', 'flush', 'read_exact', 'write_all') and \
                is_tracker_ref(L, D, b['locals'][1]):
            kind = 'tracker'
        if kind is None or x['name'] == 'fmt':
            continue
        if kind != 'tracker' and D.internal(x):
            # private helpers are covered through the public operations and the
            # settlement functions found below
            continue
        n += 1
        moving += one(ck, L, p, x['name'], kind)
    ck.floor('operations analysed for position accounting', n, 59)
    ck.floor('operations that move the position', moving, 35)
    settlements(ck, L)


def failed(e, o):
    return o.val.op == 'agg' and o.val.a[0] == 'core::result::Result' and o.val.a[1] == R_ERR


def is_blob_ref(D, ty):
    t = D.tys[ty]
    return t['k'] == 'ref' and D.tys[t['t']]['k'] == 'adt' and D.tys[t['t']]['path'] == BLOB


def is_tracker_ref(L, D, ty):
    t = D.tys[ty]
    return t['k'] == 'ref' and D.tys[t['t']]['k'] == 'adt' and D.tys[t['t']]['path'] in L.R.trackers


def prepare(L, kind, name):
    def pre(e, st, args, addr, env):
        f = st.f.assume(e.lt(env.fld(e, st, addr, L.R.depth), C(1 << 63, 'u64')), True)
        if name == 'pad_to_align':
            f = valid_alignment(e, f, args[1])
        if name == 'consume':
            f = f.copy()
            if kind == 'blob':
                rem = sub(env.fld(e, st, addr, L.R.blob_end), env.pos(e, st, addr))
                f.rows = f.rows + (lin_sub(lin(rem), lin(args[1])),)
            else:
                f.rows = f.rows + (lin_sub(({}, MAXU), lin(add(env.pos(e, st, addr), args[1]))),)
        st.f = f
    return pre


def one(ck, L, path, name, kind):
    r = L.run(path, kind, pre=prepare(L, kind, name))
    e = r.e
    p0, g0 = L.pos(r, r.st0), L.off(r, r.st0)
    moved = False
    seen = False
    for o in r.outs:
        if o.kind == 'panic' and o.why.startswith('overflow') and not depth_full(L, r, o):
            ck.fail('position-overflow', r.name, 'arithmetic may overflow', o.site)
        if o.kind in ('stuck', 'unreachable'):
            ck.fail('analysis', r.name, '%s %s' % (o.kind, o.why), o.site)
        if o.kind != 'ret':
            continue
        seen = True
        f = o.st.f
        p1, g1 = L.pos(r, o.st), L.off(r, o.st)
        if failed(r.e, o):
            continue        # documented: the position is unspecified after an error
        if name == 'seek' and kind == 'stream':
            good, val = result_of(e, o)
            sk = [ev for ev in flat(o.events()) if L.on(r, ev) and ev.name.startswith('seek') and ev.x['ok']]
            if good:
                okk = len(sk) == 1 and lin_eq(p1, sk[0].x['v']) and lin_eq(val, sk[0].x['v'])
                ck.ob('position-seek', r.name, okk,
                      'the position is not what the underlying object reports', r.at)
                moved = True
                continue
            # fall through: a failed seek leaves the accounting alone
        if name in LOGICAL:
            good, val = result_of(e, o) if o.val.op == 'agg' and o.val.a[0].endswith('Result') else (True, None)
            if good:
                moved = True
                ck.ob('position-set', r.name, p1 is r.args[1] or lin_eq(p1, r.args[1]),
                      'the position is not the one requested', r.at)
                continue
        dp, dg = lin_sub(lin(p1), lin(p0)), lin_sub(lin(g1), lin(g0))
        d, k = lin_sub((dp[0], dp[1]), (dg[0], dg[1]))
        same = k == 0 and not any(d.values())
        if not same:
            same = not f.feasible([({x: v for x, v in d.items()}, k - 1)]) and \
                not f.feasible([({x: -v for x, v in d.items()}, -k - 1)])
        if p1 is not p0:
            moved = True
        ck.ob('position-exact', r.name, same, 'position moves by %s while the stream moves by %s' % (
            show(sub(p1, p0))[:120], show(sub(g1, g0))[:120]), r.at)
    ck.ob('position-decided', r.name, seen, 'no outcome', r.at)
    return moved


def depth_full(L, r, o):
    """the panic can only happen 2^64 - 1 levels deep (documented as unsupported)"""
    d = L.field(r, o.st, L.R.depth)
    return refuted(o.st.f, r.e.eq(d, C(MAXU, 'u64')), False)


def settlements(ck, L):
    """the functions installed as pending settlement: found as the values the slot
    holds after the public operations that open a blob"""
    D = ck.D
    fns = settlement_fns(L)
    ck.floor('settlement functions', len(fns), 3)
    for fn, opener in sorted(fns.items(), key=lambda x: str(x[0])):
        x = root_of_path(D, fn)
        ck.ob('settlement-known', 'opened by ' + short(opener), x is not None,
              'the settlement function cannot be analysed')
        if x is not None:
            settle(ck, L, x['path'], opener)


def settle(ck, L, path, opener):
    def pre(e, st, args, addr, env):
        pos = env.pos(e, st, addr)
        end = env.fld(e, st, addr, L.R.blob_end)
        f = st.f.copy()
        f.rows = f.rows + (lin_sub(lin(end), lin(pos)),)
        st.f = f
    r = L.run(path, 'stream', pre=pre)
    e = r.e
    p0, g0 = L.pos(r, r.st0), L.off(r, r.st0)
    n = 0
    for o in r.rets():
        n += 1
        if failed(e, o):
            continue
        p1, g1 = L.pos(r, o.st), L.off(r, o.st)
        d, k = lin_sub(lin_sub(lin(p1), lin(p0)), lin_sub(lin(g1), lin(g0)))
        same = same_num(o.st.f, sub(p1, p0), sub(g1, g0))
        ck.ob('settlement-position', r.name, same, 'position moves by %s while the stream moves by %s' % (
            show(sub(p1, p0))[:120], show(sub(g1, g0))[:120]), r.at)
    ck.floor('outcomes of %s' % r.name, n, 1)

