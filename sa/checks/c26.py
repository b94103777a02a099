"""C26: the in-memory reader gives the same bytes, whether read or borrowed."""
from streamlib import *
import checks.c06 as c06

IO = {'read', 'write', 'fill_buf', 'consume', 'flush', 'seek'}
IOTRAITS = ('::Read', '::BufRead', '::Write', '::Seek')
CUR = 'core::io::cursor::Cursor'


def run(ck):
    L = Lib(ck)
    D = ck.D
    nf = nv = 0
    for r in D.roots:
        tr = r.get('impl_trait')
        p = r['path']
        if not tr or str(r['inst']) not in D.bodies:
            continue
        t = r.get('impl_self')
        path = D.tys[t]['path'] if isinstance(t, int) and D.tys[t]['k'] == 'adt' else None
        if path == 'fourleaf::io::TransparentCursor' and tr.endswith(IOTRAITS):
            nf += forwards(ck, L, r)
        elif (path == 'fourleaf::io::TransparentCursor' and r['name'] in ('as_ref', 'as_mut')) or \
                r['name'] == 'as_ext_bytes':
            nv += views(ck, L, r)
    ck.floor('outcomes of reader methods', nf, 11)
    ck.floor('outcomes of borrowing methods', nv, 9)
    c06.slices(ck, L)


def go(ck, L, r):
    hooks = dict(StreamEnv(ck.D, L.R).hooks)
    seen = {}

    def position(c):
        # asking twice gives the same answer (nothing here moves the cursor)
        k = c.e.addr_of(c.args[0])
        v = seen.setdefault(k, fresh('position', 'u64'))
        c.ev('call', CUR + '::<T>::position', ret=v)
        return c.ret(v)
    hooks[CUR + '::<T>::position'] = position
    ru = analyse(ck, r['path'], hooks)
    return ru, short(r['path']), '%s:%s' % (r['file'], r['line'])


def forwards(ck, L, r):
    """a method of TransparentCursor does exactly the same operation of its cursor"""
    ru, site, at = go(ck, L, r)
    e = ru.e
    root_, path = e.addr_of(ru.args[0])
    n = 0
    for o in ru.outs:
        n += 1
        if o.kind != 'ret':
            ck.fail('returns', site, '%s: %s' % (o.kind, o.why), o.site)
            continue
        evs = o.events()
        io = [ev for ev in evs if ev.kind == 'io']
        fine = len(evs) == len(io) == 1 and io[0].name == r['name'] and \
            e.addr_of(io[0].args[0]) == (root_, path + (('f', 0),)) and \
            all(a is b for a, b in zip(io[0].args[1:], ru.args[1:])) and len(io[0].args) == len(ru.args)
        if not fine and r['name'] == 'consume':
            fine = False
        ck.ob('same-operation', site, fine, 'does %s' % [(ev.name, [show(a)[:60] for a in ev.args]) for ev in evs], at)
        ck.ob('same-result', site, fine and (io[0].ret is None or o.val is io[0].ret or same(o.val, io[0].ret)),
              'returns %s' % show(o.val)[:100], at)
    return n


def same(a, b):
    if a is b:
        return True
    return a.op == b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a) and \
        all(x is y or same(x, y) for x, y in zip(a.a[2:], b.a[2:]))


def views(ck, L, r):
    """as_ref, as_mut, as_ext_bytes: exactly the bytes not yet read"""
    ru, site, at = go(ck, L, r)
    e, D = ru.e, ck.D
    n = 0
    for o in ru.outs:
        n += 1
        if o.kind != 'ret':
            ck.fail('returns', site, '%s: %s' % (o.kind, o.why), o.site)
            continue
        st0 = D.s(D.deref_ty(ru.args[0].ty))
        evs = o.events()
        if D.tys[D.deref_ty(ru.args[0].ty)]['k'] == 'ref':
            # a slice used as a reader is itself what has not been read
            inner = e.load(ru.st0, *e.addr_of(ru.args[0]))
            ck.ob('rest-exact', site, o.val is inner and not evs, 'returns %s' % show(o.val)[:100], at)
            continue
        root_, path = e.addr_of(ru.args[0])
        if 'TransparentCursor' in st0:
            path = path + (('f', 0),)
        whole, pos, rest = None, None, None
        bad = None
        for ev in evs:
            nm = ev.name.split('::')[-1] if ev.name else ''
            on = bool(ev.args) and ev.args[0].op in ('ref', 'sym', 'pure', 'deref') and addr(e, ev.args[0]) == (root_, path)
            if on and nm in ('get_ref', 'get_mut', 'into_inner'):
                whole = ev.ret
            elif on and nm == 'position':
                pos = ev.ret
            elif on and nm == 'fill_buf':
                rest = ev.ret
            elif nm in ('as_ref', 'as_mut', 'borrow', 'borrow_mut', 'deref', 'deref_mut') and whole is not None and (
                    ev.args[0] is whole or addr(e, ev.args[0]) == addr(e, whole)):
                whole = ev.ret
            else:
                bad = 'does %s' % ev.name
        if bad is None and rest is not None:
            ck.ob('rest-exact', site, rest.op == 'agg' and o.val is rest.a[2], 'returns %s' % show(o.val)[:100], at)
            continue
        v = o.val
        if bad is None and (whole is None or pos is None):
            bad = 'does not look at both the buffer and the position'
        if bad is None:
            # the buffer itself: whole may be a reference to the slice or to a reference to it
            bases = [addr(e, whole)]
            w2 = e.load(o.st, *bases[0]) if bases[0] else None
            if w2 is not None and D.tys[D.deref_ty(ru.args[0].ty)]['k'] == 'adt':
                bases.append(addr(e, w2))
            f = o.st.f
            if v.op == 'slice' and v.a[0] in bases:
                base, off, ln = v.a
                # total length: whichever length term the slice was cut from
                tot = total(e, o, whole, w2, base)
                lo = lin(off)
                end = lin_addl(lin(off), lin(ln))
                fine = tot is not None and lin_eqf(f, end, lin(tot)) and (
                    lin_eqf(f, lo, lin(pos)) and not f.feasible([lin_gt(pos, tot)]) or
                    lin_eqf(f, lo, lin(tot)) and not f.feasible([lin_gt(tot, pos)]))
                bad = None if fine else 'returns %s' % show(v)[:120]
            elif is_empty(e, v):
                # an empty slice is right only at or past the end
                tots = [total(e, o, w, None, None) for w in (whole, w2)]
                bad = None if any(t is not None and not f.feasible([lin_gt(t, pos)]) for t in tots) else \
                    'returns an empty slice too early'
            else:
                bad = 'returns %s' % show(v)[:120]
        ck.ob('rest-exact', site, bad is None, bad, at)
    return n


def is_empty(e, v):
    ln = e.length(v)
    return is_c(ln) and cv(ln) == 0


def addr(e, v):
    try:
        return e.addr_of(v)
    except Exception:
        return None


def total(e, o, whole, w2, base):
    for w in (w2, whole):
        if w is not None and (base is None or addr(e, w) == base):
            try:
                return e.length(w)
            except Exception:
                continue
    return None


def lin_addl(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + v
    return {k: v for k, v in d.items() if v}, a[1] + b[1]


def lin_eqf(f, a, b):
    """a == b under the facts"""
    one = ({}, 1)
    return not f.feasible([lin_sub(lin_sub(a, b), one)]) and not f.feasible([lin_sub(lin_sub(b, a), one)])


def lin_gt(a, b):
    """row for a > b (rows are linear forms that are not negative)"""
    return lin_sub(lin_sub(lin(a), lin(b)), ({}, 1))
