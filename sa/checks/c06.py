"""C06: a blob handle never lets anything outside its blob be read, written or positioned."""
from streamlib import *
from checks.c04 import same_int, lin_eq

RD = "<fourleaf::stream::Blob<'d, R> as alloc::io::read::Read>::"
BR = "<fourleaf::stream::Blob<'d, R> as alloc::io::buf_read::BufRead>::"
WR = "<fourleaf::stream::Blob<'d, W> as core::io::write::Write>::"
SK = "<fourleaf::stream::Blob<'d, R> as core::io::seek::Seek>::seek"
MAXI = (1 << 63) - 1


def entails(f, t):
    """t >= 0 on every state described by f (t: linear form (d, k))"""
    d, k = t
    return not f.feasible([({x: -v for x, v in d.items()}, -k - 1)])


def le(f, a, b):
    return entails(f, lin_sub(lin(b), lin(a)))


class View:
    def __init__(self, L, r, st, b):
        self.pos = L.pos(r, st)
        self.end = L.field(r, st, L.R.blob_end)
        self.len = L.blob_len(r.e, st, b)
        self.rem = mk('sub', (self.end, self.pos), 'i128')
        self.start = mk('sub', (self.end, self.len), 'i128')
        self.inn = mk('sub', (self.pos, self.start), 'i128')


def sub(a, b):
    return mk('sub', (a, b), 'i128')


def add(a, b):
    return mk('add', (a, b), 'i128')


def confined(ck, L, r, o, v0, where=''):
    """start <= pos <= end, and the blob keeps its bounds"""
    f = o.st.f
    v = View(L, r, o.st, r.args[0])
    okk = le(f, v.pos, v.end) and le(f, v.start, v.pos)
    ck.ob('position-confined', r.name, okk, 'the position may leave the blob%s' % where, r.at)
    ck.ob('bounds-kept', r.name, lin_eq(v.end, v0.end) and lin_eq(v.len, v0.len),
          'the extent of the blob changes', r.at)
    return v


def slice_shape(e, v):
    """(root value of the bytes, offset, length)"""
    if v.op == 'slice':
        return v.a[0], v.a[1], v.a[2]
    return v, C(0, 'usize'), e.length(v)


def prefix_of(e, f, v, base):
    """length of v when it is a prefix of byte slice `base`, else None"""
    if v is base:
        return e.length(base)
    if v.op == 'slice' and is_c(v.a[1]) and cv(v.a[1]) == 0 and v.a[0] == e.addr_of(base):
        return v.a[2]
    return None


def run(ck):
    L = Lib(ck)
    getters(ck, L)
    transfer(ck, L, RD + 'read', 'read')
    transfer(ck, L, WR + 'write', 'write')
    buffered(ck, L)
    seeking(ck, L)
    slices(ck, L)
    whole(ck, L)
    others(ck, L)


def getters(ck, L):
    n = 0
    for name, want in (('len', lambda v: v.len), ('remaining', lambda v: v.rem),
                       ('stream_pos', lambda v: v.pos), ('start_pos', lambda v: v.start),
                       ('end_pos', lambda v: v.end), ('inner_pos', lambda v: v.inn)):
        r = L.run(B + name, 'blob')
        basic(ck, r)
        v0 = View(L, r, r.st0, r.args[0])
        for o in r.rets():
            n += 1
            ck.ob('extent-reported', r.name, lin_eq(o.val, want(v0)) or
                  refuted(o.st.f, r.e.eq(o.val, r.e.canon(want(v0), 'u64')), False),
                  'reports %s' % show(o.val), r.at)
    ck.floor('blob extent getters', n, 6)


def transfer(ck, L, path, opname):
    r = L.run(path, 'blob')
    basic(ck, r)
    e = r.e
    v0 = View(L, r, r.st0, r.args[0])
    n = 0
    buf = r.args[1]
    bl = e.length(buf)
    for o in r.rets():
        f = o.st.f
        good, val = result_of(e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        n += 1
        confined(ck, L, r, o, v0)
        if good is None:
            ck.fail('transfer-bounded', r.name, 'result is not determined', r.at)
            continue
        if not evs:
            if good:
                # nothing transferred: only at the end of the blob, or into nothing
                can = f.feasible([lin_sub(lin(bl), ({}, 1)), lin_sub(lin(v0.rem), ({}, 1))])
                ck.ob('transfer-total', r.name, not can and lin_eq(val, C(0, 'usize')),
                      'Ok without transferring although bytes remain and the buffer is not empty', r.at)
            else:
                # refusal is justified only next to u64::MAX
                ff = f.copy()
                ff.rows = ff.rows + (lin_sub(({}, MAXU), lin(add(v0.pos, bl))),)
                ck.ob('transfer-refusal', r.name, not ff.consistent(),
                      'an error is returned although no operation failed', r.at)
            continue
        ev = evs[0]
        okk = len(evs) == 1 and ev.name == opname
        ck.ob('transfer-once', r.name, okk, 'several transfers (%s)' % [x.name for x in evs], r.at)
        if not okk:
            continue
        if not ev.x['ok']:
            ck.ob('transfer-error', r.name, not good and contains(val, ev.x['err']),
                  'the error of the underlying object is not returned', r.at)
            ck.ob('transfer-error', r.name, lin_eq(L.pos(r, o.st), v0.pos), 'position moved by a failure', r.at)
            continue
        k = prefix_of(e, f, ev.x['buf'], buf)
        okk = k is not None and le(f, k, v0.rem) and le(f, k, bl)
        ck.ob('transfer-bounded', r.name, okk,
              'up to %s bytes may be transferred while %s remain in the blob' % (
                  show(k) if k is not None else show(ev.x['buf']), show(v0.rem)), r.at)
        if k is not None:
            ck.ob('transfer-total', r.name, not f.feasible([lin_sub(({}, 0), lin(k))]),
                  'an empty transfer is attempted', r.at)
        ck.ob('transfer-count', r.name, good and lin_eq(val, ev.x['k']) and
              lin_eq(L.pos(r, o.st), add(v0.pos, ev.x['k'])),
              'the count returned or the position is not what was transferred', r.at)
    ck.floor('outcomes of Blob::%s' % opname, n, 4)


def buffered(ck, L):
    r = L.run(BR + 'fill_buf', 'blob')
    basic(ck, r)
    e = r.e
    v0 = View(L, r, r.st0, r.args[0])
    for o in r.rets():
        f = o.st.f
        good, val = result_of(e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        confined(ck, L, r, o, v0)
        if good:
            if not evs:
                ln = e.length(val)
                ck.ob('buffer-bounded', r.name, le(f, ln, C(0, 'u64')), 'bytes from nowhere', r.at)
                continue
            k = prefix_of(e, f, val, evs[0].ret.a[2]) if evs[0].ret is not None and evs[0].ret.op == 'agg' else None
            okk = len(evs) == 1 and evs[0].name == 'fill_buf' and k is not None and le(f, k, v0.rem)
            ck.ob('buffer-bounded', r.name, okk, 'the buffer may extend past the end of the blob', r.at)
            if okk:
                inner = e.length(evs[0].ret.a[2])
                can = f.feasible([lin_sub(lin(inner), ({}, 1)), lin_sub(lin(v0.rem), ({}, 1)), lin_sub(({}, 0), lin(k))])
                ck.ob('buffer-total', r.name, not can,
                      'an empty buffer although bytes remain', r.at)
        elif good is False:
            okk = bool(evs) and (not evs[-1].x['ok'] and contains(val, evs[-1].x['err']) or evs[-1].x['ok'])
            ck.ob('transfer-error', r.name, okk, 'error without a failed operation', r.at)
            if evs and evs[-1].x['ok']:
                inner = e.length(evs[-1].ret.a[2])
                ff = f.copy()
                ff.rows = ff.rows + (lin_sub(({}, MAXU), lin(add(v0.pos, inner))),)
                ck.ob('transfer-refusal', r.name, not ff.consistent(),
                      'an error is returned although no operation failed', r.at)

    def pre(e, st, args, addr, env):
        rem = sub(env.fld(e, st, addr, L.R.blob_end), env.pos(e, st, addr))
        f = st.f.copy()
        f.rows = f.rows + (lin_sub(lin(rem), lin(args[1])),)
        st.f = f
    ck.assume('BufRead::consume is called with at most the length of the last fill_buf, as its contract demands')
    r = L.run(BR + 'consume', 'blob', pre=pre)
    basic(ck, r)
    v0 = View(L, r, r.st0, r.args[0])
    n = 0
    for o in r.rets():
        n += 1
        confined(ck, L, r, o, v0)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        ck.ob('consume-exact', r.name, len(evs) == 1 and evs[0].name == 'consume' and
              lin_eq(evs[0].x['k'], r.args[1]) and lin_eq(L.pos(r, o.st), add(v0.pos, r.args[1])),
              'consumption and position differ', r.at)
    ck.floor('outcomes of Blob::consume', n, 1)


def seeking(ck, L):
    r = L.run(SK, 'blob')
    basic(ck, r)
    e = r.e
    v0 = View(L, r, r.st0, r.args[0])
    modes = set()
    n = 0
    for o in r.rets():
        f = o.st.f
        n += 1
        good, val = result_of(e, o)
        w = r.args[1]
        m = f.known.get(e.discr(w, 'isize'))
        v1 = confined(ck, L, r, o, v0)
        if m is None or good is None:
            ck.fail('seek-target', r.name, 'an outcome does not depend on the seek mode', r.at)
            continue
        off = e.proj(w, ('v', m, 0), 'u64' if m == 0 else 'i64')
        tgt = {0: off, 1: add(v0.len, off), 2: add(v0.inn, off)}[m]
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        inside = [lin(tgt), lin_sub(lin(v0.len), lin(tgt))]
        if good:
            modes.add(m)
            okk = len(evs) <= 1 and all(ev.name == 'seek' and ev.x['ok'] for ev in evs)
            ck.ob('seek-target', r.name, okk and lin_same(f, v1.inn, tgt), 'lands at %s instead of %s' % (
                show(v1.inn), show(tgt)), r.at)
            ck.ob('seek-result', r.name, lin_same(f, val, tgt), 'reports %s' % show(val), r.at)
        elif evs and not evs[-1].x['ok']:
            ck.ob('transfer-error', r.name, contains(val, evs[-1].x['err']) and
                  lin_eq(L.pos(r, o.st), v0.pos), 'failed seek not reported faithfully', r.at)
        else:
            # refused: the target is outside, or the move exceeds i64::MAX
            d = sub(tgt, v0.inn)
            ff = f.copy()
            ff.rows = ff.rows + tuple(inside) + (lin_sub(({}, MAXI), lin(d)),
                                                 lin_sub(lin(d), ({}, -MAXI)))
            ck.ob('seek-refusal', r.name, not evs and not ff.consistent(),
                  'a target inside the blob is refused', r.at)
            ck.ob('seek-refusal', r.name, lin_eq(L.pos(r, o.st), v0.pos), 'position moved by a refusal', r.at)
    ck.ob('seek-total', r.name, modes == {0, 1, 2}, 'successful modes: %s' % sorted(modes), r.at)
    ck.floor('outcomes of Blob::seek', n, 14)


def slices(ck, L):
    n = 0
    for name in ('slice', 'slice_mut', 'ext_slice'):
        r = L.run(B + name, 'blob')
        basic(ck, r)
        e = r.e
        v0 = View(L, r, r.st0, r.args[0])
        for o in r.rets():
            n += 1
            f = o.st.f
            good, val = result_of(e, o)
            confined(ck, L, r, o, v0)
            base = [ev for ev in o.events() if ev.kind == 'call' and ev.ret is not None and
                    ev.name.split('::')[-1] in ('as_ref', 'as_mut', 'as_ext_bytes')]
            if len(base) != 1 or good is None:
                ck.fail('slice-exact', r.name, 'the bytes do not come from the underlying object', r.at)
                continue
            bs = base[0].ret
            if good:
                k = prefix_of(e, f, val, bs)
                ck.ob('slice-exact', r.name, k is not None and lin_same(f, k, v0.rem),
                      'the slice is not exactly the remainder of the blob', r.at)
            else:
                okk = is_err_variant(ck.D, val, ERR, 'TruncatedBlob') and \
                    lin_eq(val.a[2], sub(v0.rem, e.length(bs)))
                ck.ob('slice-truncated', r.name, okk and
                      not f.feasible([lin_sub(lin(e.length(bs)), lin(v0.rem))]),
                      'an available slice is refused, or the shortage is misreported', r.at)
    ck.floor('slice outcomes', n, 6)


def lin_same(f, a, b):
    return lin_eq(a, b) or (le(f, a, b) and le(f, b, a))


def whole(ck, L):
    r = L.run(B + 'read_fully', 'blob')
    basic(ck, r)
    e = r.e
    v0 = View(L, r, r.st0, r.args[0])
    mx = r.args[1]
    n = 0
    for o in r.rets():
        n += 1
        f = o.st.f
        good, val = result_of(e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        v1 = confined(ck, L, r, o, v0)
        if good:
            ck.ob('read-fully', r.name, all(ev.x['ok'] for ev in evs) and le(f, v1.rem, C(0, 'u64')),
                  'Ok although part of the blob has not been read', r.at)
            ck.ob('read-fully-limit', r.name, le(f, v0.rem, mx), 'more than the maximum is returned', r.at)
        elif not evs:
            okk = is_err_variant(ck.D, val, ERR, 'LargeBlob') and val.a[2] is mx and lin_eq(val.a[3], v0.rem)
            ck.ob('read-fully-limit', r.name, okk and not f.feasible([lin_sub(lin(mx), lin(v0.rem))]),
                  'a blob within the maximum is refused, or misreported', r.at)
        elif not evs[-1].x['ok']:
            ck.ob('transfer-error', r.name, contains(val, evs[-1].x['err']), 'error replaced', r.at)
        else:
            ck.ob('read-fully', r.name, is_err_variant(ck.D, val, ERR, 'TruncatedBlob') and
                  lin_eq(val.a[2], v1.rem) and not f.feasible([lin_sub(({}, 0), lin(v1.rem))]),
                  'truncation misreported', r.at)
    r = L.run(B + 'read_or_trunc', 'blob')
    basic(ck, r)
    v0 = View(L, r, r.st0, r.args[0])
    for o in r.rets():
        n += 1
        good, val = result_of(r.e, o)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        v1 = confined(ck, L, r, o, v0)
        if good:
            okk = evs and all(ev.x['ok'] for ev in evs) and le(o.st.f, sub(v1.pos, v0.pos), r.args[1]) and \
                any(b.op != 'c' and lin_same(o.st.f, b, r.args[1]) for b in (evs[-1].x.get('bounds') or []))
            ck.ob('read-or-trunc', r.name, okk, 'not the first bytes up to the maximum', r.at)
        else:
            ck.ob('transfer-error', r.name, bool(evs) and not evs[-1].x['ok'] and contains(val, evs[-1].x['err']),
                  'error replaced', r.at)
    ck.floor('whole blob outcomes', n, 5)


def others(ck, L):
    """every other public operation on a blob handle keeps it confined"""
    done = set(ck.functions)
    n = 0
    for x in ck.D.roots:
        p = x['path']
        if not p.startswith((B, '<fourleaf::stream::Blob<')) or x['derived'] or \
                str(x['inst']) not in ck.D.bodies or ck.D.internal(x):
            continue
        if short(p) in done:
            n += 1
            continue
        nm = x['name']
        if nm in ('stream_set_pos', 'stream_get_mut', 'fmt'):
            continue          # documented escape hatches
        r = L.run(p, 'blob')
        basic(ck, r)
        v0 = View(L, r, r.st0, r.args[0])
        n += 1
        for o in r.rets():
            confined(ck, L, r, o, v0)
    ck.floor('blob operations', n, 17)
