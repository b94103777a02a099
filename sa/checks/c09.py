"""C09: the nesting depth follows the elements read, and skipping a field passes over
exactly its contents."""
from streamlib import *
from checks.c04 import klass, lin_eq, same_int, fidx, FIELD, VALUE, CLASSES
from checks.c06 import le, add, sub, lin_same
from checks.c05 import public_ops, is_stream_ref
from checks.c07 import prepare, depth_full


def run(ck):
    L = Lib(ck)
    stepping(ck, L)
    nobody_else(ck, L)
    skip_up(ck, L)
    skip_field(ck, L)


def expected(e, f, cl, d0):
    """depth after an element of class cl was read at depth d0"""
    if cl in ('Struct', 'Enum'):
        return ('lift1', 1)
    if cl in ('Integer', 'Blob'):
        return ('lift1', 0)
    if cl == 'EndOfStruct':
        return ('drop', 0)
    if cl == 'EndOfDoc':
        return ('zero', 0)
    return ('same', 0)


def depth_ok(f, d0, d1, how, n):
    """d1 == expected(d0) entailed by f; a field at depth 0 is at depth 1"""
    z = C(0, 'u64')
    if how == 'same':
        return lin_same(f, d1, d0)
    if how == 'zero':
        return lin_same(f, d1, z)
    at0 = f.copy()
    at0.rows = at0.rows + (lin_sub(({}, 0), lin(d0)),)
    pos = f.copy()
    pos.rows = pos.rows + (lin_sub(lin(d0), ({}, 1)),)
    if how == 'drop':
        a, b = z, sub(d0, C(1, 'u64'))
    else:
        a, b = C(1 + n, 'u64'), add(d0, C(n, 'u64'))
    return (not at0.consistent() or lin_same(at0, d1, a)) and \
        (not pos.consistent() or lin_same(pos, d1, b))


def stepping(ck, L):
    n = 0
    for name in ('next_element', 'next_field'):
        r = L.run(S + name, 'stream', pre=prepare(L, 'stream', name))
        basic(ck, r)
        e = r.e
        d0 = L.field(r, r.st0, L.R.depth)
        for o in r.rets():
            f = o.st.f
            good, val = result_of(e, o)
            d1 = L.field(r, o.st, L.R.depth)
            eof1 = L.field(r, o.st, L.R.eof, 'bool')
            ds = [ev for ev in o.events() if ev.kind == 'io' and ev.name == 'decode_descriptor' and ev.x['ok']]
            loops = [ev for ev in o.events() if ev.kind == 'loop']
            for lp in loops:
                for seg, st in lp.x['segs']:
                    pass        # only padding is skipped (C04); the loop must not touch the depth
                dd = [c for c in lp.x['cells'] if c[1] and c[1][-1] == ('f', L.R.depth)]
                ck.ob('depth-exact', r.name + '/padding', not dd, 'skipping padding changes the depth', r.at)
            if good is False:
                # no element was read: no struct was entered or left, and the document goes on
                # (the first field may be at depth 1 even if its value cannot be read; an exception is an element)
                eof0 = L.field(r, r.st0, L.R.eof, 'bool')
                ck.ob('failed-read', r.name, lin_same(f, d1, d0) or depth_ok(f, d0, d1, 'lift1', 0),
                      'a read that fails changes the depth to %s' % show(d1), o.site)
                ck.ob('failed-read', r.name, eof1 is eof0 or refuted(f, eof1, True),
                      'a read that fails ends the document', o.site)
            if not ds:
                if good:
                    ck.ob('depth-exact', r.name + '/latched', lin_same(f, d1, d0), 'depth changes without reading', r.at)
                continue
            cl = klass(e, f, ds[-1])
            if ds[-1].x.get('substituted'):
                cl = 'EndOfDoc'
            if cl is None:
                continue
            n += 1
            if not good and not (name == 'next_field' and cl == 'Exception'):
                continue
            how, k = expected(e, f, cl, d0)
            site = '%s/%s' % (r.name, cl)
            ck.ob('depth-exact', site, depth_ok(f, d0, d1, how, k),
                  'depth becomes %s' % show(d1), r.at)
            eof0 = L.field(r, r.st0, L.R.eof, 'bool')
            if cl == 'EndOfDoc':
                ck.ob('end-latched', site, refuted(f, eof1, False), 'the end of the document is not remembered', r.at)
            else:
                ck.ob('end-latched', site, eof1 is eof0 or refuted(f, eof1, True),
                      'the document ends although it does not', r.at)
            # the depth a field reports is its own, not that of its contents
            v = val
            if good and cl in ('Integer', 'Blob', 'Struct', 'Enum'):
                while v.op == 'agg' and v.a[0] != FIELD and len(v.a) > 2:
                    v = v.a[2]
                fd = e.proj(v, ('f', fidx(ck.D, FIELD, None, 'depth')), 'u64')
                ck.ob('field-depth', site, depth_ok(f, d0, fd, 'lift1', 0),
                      'the field reports depth %s' % show(fd), r.at)
    ck.floor('reads with a depth effect', n, 70)


def nobody_else(ck, L):
    """no operation but reading, skipping, seeking and set_struct_depth moves the depth"""
    n = 0
    movers = {'next_element', 'next_field', 'skip_up', 'seek', 'set_struct_depth'}
    D = ck.D
    for p in public_ops(D):
        x = root(D, p)
        b = D.bodies[str(x['inst'])]
        if x['name'] in movers or not b['argc'] or not is_stream_ref(D, b['locals'][1]):
            continue
        r = L.run(p, 'stream', pre=prepare(L, 'stream', x['name']))
        d0 = L.field(r, r.st0, L.R.depth)
        e0 = L.field(r, r.st0, L.R.eof, 'bool')
        for o in r.rets():
            n += 1
            ck.ob('depth-untouched', r.name, L.field(r, o.st, L.R.depth) is d0, 'the depth changes', r.at)
            if x['name'] != 'clear_eof':
                ck.ob('end-untouched', r.name, L.field(r, o.st, L.R.eof, 'bool') is e0,
                      'the end-of-document state changes', r.at)
    ck.floor('outcomes of operations that must not move the depth', n, 200)
    r = L.run(S + 'set_struct_depth', 'stream')
    for o in r.rets():
        ck.ob('depth-set', r.name, L.field(r, o.st, L.R.depth) is r.args[1], 'not the depth requested', r.at)
    r = L.run(S + 'seek', 'stream')
    for o in r.rets():
        good, val = result_of(r.e, o)
        if good:
            ck.ob('depth-reset', r.name, lin_eq(L.field(r, o.st, L.R.depth), C(0, 'u64')),
                  'seeking does not return to the top level', r.at)


def eof_means_top(e, st, env, L, addr):
    """reachable streams: once the document ended the depth is zero"""
    f = st.f
    eof = env.fld(e, st, addr, L.R.eof, 'bool')
    d = env.fld(e, st, addr, L.R.depth)
    out = []
    return eof, d


def skip_up(ck, L):
    ck.assume('set_struct_depth is not used to claim a depth after the end of the document')
    r = L.run(S + 'skip_up', 'stream', pre=prepare(L, 'stream', 'skip_up'))
    e = r.e
    n = loops = 0
    d0 = L.field(r, r.st0, L.R.depth)
    tgt = r.args[1]
    for o in r.outs:
        if o.kind == 'panic' and depth_full(L, r, o):
            continue
        if o.kind != 'ret':
            ck.fail('skip-total', r.name, '%s %s' % (o.kind, o.why), o.site)
            continue
        n += 1
        f = o.st.f
        good, val = result_of(e, o)
        d1 = L.field(r, o.st, L.R.depth)
        evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
        if good:
            ck.ob('skip-reaches', r.name, le(f, d1, tgt) or le(ended_is_top(L, r, o), d1, tgt), 'Ok although still nested deeper than requested', r.at)
            if not evs:
                ck.ob('skip-idle', r.name, le(f, d0, tgt) and lin_same(f, d1, d0),
                      'nothing is skipped although nested deeper', r.at)
        else:
            ck.ob('skip-error', r.name, bool(evs) and skip_err(ck.D, val, evs[-1]),
                  'an error no read reported', r.at)
        # it reads only while nested deeper than requested
        for ev in o.events():
            if ev.kind == 'loop':
                loops += 1
                for seg, st in ev.x['segs']:
                    reads = [x for x in seg if x.kind == 'io' and x.name == 'decode_descriptor']
                    for x in reads[:1]:
                        dd = L.field(r, L.at_event(x), L.R.depth)
                        ck.ob('skip-stops', r.name, not x.f.feasible([lin_sub(lin(tgt), lin(dd))]),
                              'an element is read although the requested depth is reached', r.at)
            elif ev.kind == 'io' and ev.name == 'decode_descriptor':
                dd = L.field(r, L.at_event(ev), L.R.depth)
                ck.ob('skip-stops', r.name, not ev.f.feasible([lin_sub(lin(tgt), lin(dd))]),
                      'an element is read although the requested depth is reached', r.at)
    ck.floor('outcomes of skip_up', n, 8)
    ck.floor('skip loops', loops, 1)


def ended_is_top(L, r, o):
    """facts at the end of o, with depth 0 wherever the document had ended already: at the start
    (assumed of the caller) and at the head of a loop (kept by every way round it: C25, ended-is-top)"""
    pairs = [(L.field(r, r.st0, L.R.eof, 'bool'), L.field(r, r.st0, L.R.depth))]
    for lp in (ev for ev in o.events() if ev.kind == 'loop'):
        at = {s[1]: s[4] for s in lp.x['syms'] if s[0] == r.addr[0]}
        p = tuple(r.addr[1])
        pairs.append((at.get(p + (('f', L.R.eof),), pairs[0][0]), at.get(p + (('f', L.R.depth),), pairs[0][1])))
    f = o.st.f.copy()
    for e, d in pairs:
        if e is not None and d is not None and f.known.get(e) in (1, True):
            f.rows = f.rows + (lin_sub(({}, 0), lin(d)),)
    return f


def skip_err(D, val, ev):
    if not ev.x['ok']:
        return contains(val, ev.x['err'])
    # a blob header whose end is out of range
    return ev.name == 'decode_u64'


def skip_field(ck, L):
    """Field::skip: nothing for leaves, skip_up to the field's own depth otherwise"""
    D = ck.D
    path = F + 'skip'
    hooks = {S + 'skip_up': mid_skip}
    r = analyse(ck, path, hooks)
    e = r.e
    fl = r.args[0]
    seen = set()
    for o in r.rets():
        v = e.proj(fl, ('f', fidx(D, FIELD, None, 'value')))
        k = o.st.f.known.get(e.discr(v, 'isize'))
        good, val = result_of(e, o)
        evs = [ev for ev in o.events() if ev.kind == 'mid']
        if k is None:
            ck.fail('field-skip', r.name, 'an outcome does not depend on the type of the field', r.at)
            continue
        nm = variant_name(D, VALUE, k)
        seen.add(nm)
        if nm in ('Integer', 'Blob'):
            ck.ob('field-skip', r.name + '/' + nm, not evs and good is True, 'something is skipped', r.at)
            continue
        sp = e.proj(v, ('v', k, 1 if nm == 'Enum' else 0))
        dep = e.proj(fl, ('f', fidx(D, FIELD, None, 'depth')), 'u64')
        okk = len(evs) == 1 and e.addr_of(evs[0].args[0]) == e.addr_of(sp) and lin_eq(evs[0].args[1], dep)
        ck.ob('field-skip', r.name + '/' + nm, okk, 'the contents are not skipped up to the field', r.at)
        if okk:
            ck.ob('field-skip-result', r.name + '/' + nm, good == evs[0].x['ok'] and
                  (good or contains(val, evs[0].x['err'])), 'the outcome of skipping is not returned', r.at)
    ck.ob('field-skip-total', r.name, seen == {'Integer', 'Blob', 'Struct', 'Enum'}, 'handles %s' % sorted(seen), r.at)


def mid_skip(c):
    a, b = c.st, c.st.fork()
    c.ev('mid', 'skip_up', st=a, ret=ok(UNIT), x={'ok': True})
    er = fresh('err', None)
    c.ev('mid', 'skip_up', st=b, ret=err(er), x={'ok': False, 'err': er})
    return c.ret(ok(UNIT), a) + c.ret(err(er), b)
