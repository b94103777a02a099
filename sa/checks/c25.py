"""C25: every repetition makes progress and every recursion descends."""
from streamlib import *
from delib import *
from checks.c05 import public_ops
from checks.c07 import prepare
from checks.c09 import mid_skip
from checks.c18 import kind_of


def run(ck):
    L = Lib(ck)
    ck.assume('iterators of std collections are finite; a reader at its end keeps returning no bytes; std '
              'adaptors (read_to_end, io::copy, write_all) stop when a read returns no bytes or a write takes none')
    ck.assume('Stream::set_struct_depth is not used to claim a depth after the end of the document')
    stream_loops(ck, L)
    value_loops(ck)


MOVES = ('decode_descriptor', 'decode_u64', 'decode_i64', 'encode_descriptor', 'encode_u64', 'encode_fixed_u64',
         'read_exact', 'write_all')


def cell(L, r, syms, i):
    for s in syms:
        if s[0] == r.addr[0] and s[1] == r.addr[1] + (('f', i),):
            return s[4]
    return None


def nested(events):
    """all loop nodes of a trace, inner ones included"""
    for ev in events:
        if ev.kind == 'loop':
            yield ev
            for seg, st in ev.x['segs']:
                yield from nested(seg)


def monotone(e, lp, st):
    """a counter that grows (or a slice that shrinks) towards a bound the loop does not move"""
    syms = {s[4] for s in lp.x['syms']}
    for s in lp.x['syms']:
        v0 = s[4]
        v1 = e.load(st, s[0], s[1], v0.ty)
        if isinstance(v0.ty, str) and v0.ty in INTS:
            d, k = lin_sub(lin(v1), lin(v0))
            if any(d.values()) or k == 0:
                continue
            # bounded: by a number that does not change while repeating
            atoms = {a for rw in st.f.rows for a in rw[0] if a not in syms and a is not v0}
            for b in list(atoms) + [C(0, v0.ty)]:
                row = row_gt(v0, b) if k < 0 else row_gt(b, v0)
                try:
                    ok_ = not st.f.feasible([neg_row(row)])
                except Exception:
                    continue
                if ok_:
                    return True
        elif v1.op == 'agg' and v1.a[0] == 'core::slice::iter::Iter' and v0 is not v1:
            return True
        elif v1.op == 'slice' and v1.a[0] == (('h', v0), ()):
            # a part of itself that is not all of it
            r = lin_sub(lin(v1.a[2]), lin(e.length(v0)))
            if not st.f.feasible([r]):
                return True
    return False


def neg_row(row):
    """not (row >= 0): row <= -1"""
    return {k: -v for k, v in row[0].items()}, -row[1] - 1


def stream_loops(ck, L):
    D = ck.D
    skip = {str(r['inst']) for r in de_methods(D)} | {str(r['inst']) for r in ser_methods(D)}
    n = fns = 0
    for r in D.roots:
        p = r['path']
        if r['derived'] or str(r['inst']) not in D.bodies or str(r['inst']) in skip or 'sa_witness' in p:
            continue
        if D.internal(r):
            continue
        if p.startswith('fourleaf::de::Context') or r['name'] == 'fmt':
            continue
        kind = kind_of(L, D, r)
        if kind:
            ru = L.run(p, kind, pre=prepare(L, kind, r['name']))
        else:
            h = dict(StreamEnv(D, L.R).hooks)
            if r['name'] == 'skip' and p.startswith(F):
                h[S + 'skip_up'] = mid_skip         # checked itself
            ru = analyse(ck, p, h)
        fns += 1
        stuck = next((o for o in ru.outs if o.kind == 'stuck'), None)
        ck.ob('recursion-ends', ru.name, stuck is None, stuck and stuck.why, stuck and stuck.site)
        seen = set()
        for o in ru.outs:
            for lp in nested(o.events()):
                if id(lp.x['segs']) in seen:
                    continue
                seen.add(id(lp.x['segs']))
                n += one_loop(ck, L, ru, kind, lp)
    for fn in sorted(settlement_fns(L), key=str):
        x = root_of_path(D, fn)
        if x is None:
            continue
        ru = L.run(x['path'], 'stream')
        stuck = next((o for o in ru.outs if o.kind == 'stuck'), None)
        ck.ob('recursion-ends', ru.name, stuck is None, stuck and stuck.why, stuck and stuck.site)
        for o in ru.outs:
            for lp in nested(o.events()):
                n += one_loop(ck, L, ru, 'stream', lp)
    ck.floor('functions of the stream layer', fns, 130)
    ck.floor('ways round a loop of the stream layer', n, 12)


def one_loop(ck, L, ru, kind, lp):
    e = ru.e
    n = 0
    if not kind:
        for seg, st in lp.x['segs']:
            n += 1
            ck.ob('loop-progress', ru.name, monotone(e, lp, st), 'nothing brings this loop nearer its end', ru.at)
        return n
    syms = lp.x['syms']
    dep, eof = cell(L, ru, syms, L.R.depth), cell(L, ru, syms, L.R.eof)
    off = next((s[4] for s in syms if s[0] == ru.env.ghost(ru.addr)), None)
    ended = []
    for seg, st in lp.x['segs']:
        f = st.f
        if dep is not None and eof is not None and f.known.get(eof) in (1, True):
            # once the document has ended the depth is zero (kept below, and C09)
            g = f.copy()
            g.rows = g.rows + (lin_sub(({}, 0), lin(dep)),)
            if not g.consistent():
                continue
        n += 1
        good = False
        if off is not None:
            good = not f.feasible([lin_sub(lin(off), lin(L.off(ru, st)))])
        if not good:
            # something was read or written, and nothing rewound (settling a blob read moves forward)
            evs = [x for x in flat(seg) if L.on(ru, x) and x.x.get('ok')]
            good = any(x.name in MOVES and not x.x.get('substituted') for x in evs) and \
                not any(x.name.startswith('seek') for x in evs)
        if not good and dep is not None and eof is not None:
            # the document has just ended: then it must not go round again
            good = refuted(f, L.field(ru, st, L.R.eof, 'bool'), False) and lin_zero(f, L.field(ru, st, L.R.depth)) \
                and leaves_at_end(lp, eof, dep)
        if not good:
            good = monotone(e, lp, st)
        ck.ob('loop-progress', ru.name, good, 'it can go round without reading, writing or approaching a bound: %s'
              % [(x.kind, x.name) for x in seg], ru.at)
        if dep is not None and eof is not None:
            d1, e1 = L.field(ru, st, L.R.depth), L.field(ru, st, L.R.eof, 'bool')
            okk = e1 is eof and d1 is dep or refuted(f, e1, True) or lin_zero(f, d1) or \
                (f.known.get(eof) in (0, False) and e1 is eof)
            ck.ob('ended-is-top', ru.name, okk, 'the document has ended but the depth is not zero', ru.at)
    return n


def lin_zero(f, v):
    return not f.feasible([row_gt(v, C(0, v.ty))])


def leaves_at_end(lp, eof, dep):
    for seg, st in lp.x['segs']:
        g = st.f.assume(eof, True)
        if g is None:
            continue
        g = g.copy()
        g.rows = g.rows + (lin_sub(({}, 0), lin(dep)),)
        if g.consistent():
            return False
    return True


# ---------------------------------------------------------------- (de)serialisation

def value_loops(ck):
    D = ck.D
    hl = HL(D, iters=True)
    n = fns = 0
    graph = {}
    impls = {}
    ms = []
    for which, roots in (('de', de_methods(D)), ('ser', ser_methods(D))):
        for r in roots:
            m = Method(ck, hl, r)
            m.D = D
            m.which = which
            ms.append(m)
            fns += 1
            impls.setdefault((which, ty_key(D, m.self_ty)), set()).add(r['name'])
            seen = set()
            for o in m.outs:
                for lp in nested(o.events()):
                    if id(lp.x['segs']) in seen:
                        continue
                    seen.add(id(lp.x['segs']))
                    for seg, st in lp.x['segs']:
                        n += 1
                        ck.ob('loop-progress', m.site, advances(m, seg, st) or monotone(m.e, lp, st),
                              'it can go round without reading another field or taking another item: %s'
                              % [(x.kind, x.name) for x in seg], m.at)
    ck.floor('(de)serialising functions', fns, 560)
    ck.floor('ways round a loop of a (de)serialising function', n, 150)
    recursion(ck, ms, impls)


def advances(m, seg, st):
    """a field was read from a stream, or an item taken from an iterator begun outside"""
    begun = [x.ret for x in seg if x.kind == 'iter' and x.name == 'begin']
    for x in seg:
        if x.kind == 'api' and x.name == 'next_field' and x.x.get('ok'):
            v = x.x.get('v')
            if v is None and x.ret is not None and x.ret.op == 'agg':
                v = x.ret.a[2]
            if v is not None and some_of(m.e, st.f, v):
                return True
        if x.kind == 'iter' and x.name == 'next' and not x.x.get('none') and \
                not any(x.x['it'] is b or within(x.x['it'], b) for b in begun):
            return True
    return False


def within(t, x, depth=0):
    return t is x or (depth < 8 and any(isinstance(y, T) and within(y, x, depth + 1) for y in t.a))


def some_of(e, f, v):
    if v.op == 'agg':
        return v.a[1] == 1
    t = e.discr(v, 'isize')
    if is_c(t):
        return cv(t) == 1
    return f.known.get(t) == 1


def ty_key(D, t):
    return D.s(t) if isinstance(t, int) else 'Self'


def recursion(ck, ms, impls):
    """calls of the same type's methods without descending into the input or the value"""
    D = ck.D
    edges = {}
    for m in ms:
        me = (m.which, ty_key(D, m.self_ty), m.name)
        out = edges.setdefault(me, set())
        for o in m.outs:
            for ev in flat_all(o.events()):
                if ev.kind != m.which:
                    continue
                t = ev.x.get('self_ty')
                name = full_name(m.which, ev.name)
                if m.which == 'de':
                    c = ev.x.get('ctx')
                    if isinstance(c, T) and c.op == 'pure' and str(c.a[0]).startswith('ctx.push'):
                        continue            # charged against the recursion limit (C15)
                else:
                    ob = ev.x.get('objs') or [(None,)]
                    if not own_value(m, ev):
                        continue            # a part of the value
                out.add((m.which, ty_key(D, t) if not is_self(D, t) else 'Self', name))
    # provided methods belong to every type that does not override them
    n = 0
    types = {(w, t) for w, t in impls if t != 'Self'}
    for w, t in sorted(types):
        g = {}
        for (w2, t2, k), outs in edges.items():
            if w2 != w or t2 not in (t, 'Self') or (t2 == 'Self' and k in impls[(w, t)]):
                continue
            g.setdefault(k, set()).update(x[2] for x in outs if x[1] in (t, 'Self'))
        n += 1
        cyc = cycle(g)
        ck.ob('recursion-descends', '%s %s' % (w, short(t)), cyc is None,
              'calls itself on the same %s: %s' % ('input' if w == 'de' else 'value', ' -> '.join(cyc or ())))
    ck.floor('implementing types', n, 150)


def is_self(D, t):
    return isinstance(t, int) and D.tys[t]['k'] == 'param' and D.s(t) == 'Self'


def full_name(which, k):
    pre = 'deserialize_' if which == 'de' else 'serialize_'
    return k if k in ('finish', 'init') or k.startswith(pre) else pre + k


def own_value(m, ev):
    x = ev.x.get('objs')
    v = x[0][0] if x else None
    a0 = m.args[0]
    try:
        own = m.e.deref(m.run.st0, a0)
    except Exception:
        own = a0
    return v is own or v is a0 or (ev.args and ev.args[0] is a0)


def flat_all(events):
    for ev in events:
        if ev.kind == 'loop':
            for seg, st in ev.x['segs']:
                yield from flat_all(seg)
        else:
            yield ev


def cycle(g):
    state, path = {}, []

    def go(k):
        state[k] = 1
        path.append(k)
        for y in sorted(g.get(k, ())):
            if state.get(y) == 1:
                return path[path.index(y):] + [y]
            if y not in state:
                r = go(y)
                if r:
                    return r
        path.pop()
        state[k] = 2
        return None
    for k in sorted(g):
        if k not in state:
            r = go(k)
            if r:
                return r
    return None
