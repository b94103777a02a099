"""Rules about de::Context itself: limits, accounting, nesting and the path it displays."""
from hlrules import *

CX = "fourleaf::de::Context::<'a>::"


class Ctx:
    """several calls on Context objects interpreted in one engine"""

    def __init__(self, ck):
        self.ck, self.D = ck, ck.D
        hl = HL(ck.D)
        self.hooks = {'<any>': self.any}
        self.hl = hl
        self.cfg = {n: fld(self.D, 'fourleaf::de::Config', n)
                    for n in ('recursion_limit', 'ignore_unknown_fields', 'max_blob', 'max_collect')}
        self.f = {n: fld(self.D, CTX, n) for n in ('next', 'field', 'pos', 'depth', 'config')}
        self.tid = next(i for i, t in enumerate(self.D.tys) if t['k'] == 'adt' and t['path'] == CTX)

    def any(self, c):
        decl = c.x.get('decl') or c.x['path']
        if c.x['path'].startswith(CTX + '::'):
            return None
        if decl == 'core::default::Default::default' and not c.args:
            t = self.D.tys[c.rty] if isinstance(c.rty, int) else None
            if t is not None and t['k'] == 'adt' and t['path'] == 'core::cell::Cell':
                z = C(0, self.D.kt(t['args'][0]))
                v = mk('agg', ('core::cell::Cell', 0, z), c.rty)
                return c.ret(v)
        return self.hl.h_any(c)

    def start(self, path):
        r = root(self.D, path)
        b = self.D.bodies[str(r['inst'])]
        self.e = Engine(self.D, self.hooks)
        self.r = r
        self.at = '%s:%s' % (r['file'], r['line'])
        return [fresh('a%d' % (i + 1), self.D.kt(b['locals'][i + 1])) for i in range(b['argc'])]

    def call(self, path, args, st):
        r = root(self.D, path)
        outs = self.e.call_inst(r['inst'], args, st)
        self.ck.analysed(short(path), len(outs))
        return outs

    def new(self):
        return St({}, Facts(), None)

    def place(self, st, v):
        """put a context value behind a reference"""
        p = fresh('ctx', None)
        st.mem[('h', p)] = v
        return p

    def writes(self, m0, st):
        return [(r, p) for r, p in self.e.changed(m0, st.mem) if r[0] == 'h' and p is not None]

    def limit(self, st, ctxp, name):
        c = self.e.deref(st, ctxp)
        cp = self.e.proj(c, ('f', self.f['config']))
        root_, path = self.e.addr_of(cp)
        return self.e.load(st, root_, path + (('f', self.cfg[name]),), 'usize')


def charge_rules(ck, which, limit, errname, rule):
    """Context::collect / Context::blob: charged(n) succeeds iff used + n <= limit"""
    X = Ctx(ck)
    path = CX + which
    args = X.start(path)
    st0 = X.new()
    m0 = dict(st0.mem)
    outs = X.call(path, args, st0.fork())
    locs = set()
    for o in outs:
        if o.kind == 'ret':
            good, v = result_of(X.e, o)
            if good:
                ws = X.writes(m0, o.st)
                ck.ob(rule + '-recorded', short(path), len(ws) == 1, 'a success records %d values' % len(ws), X.at)
                locs.update(ws)
    ck.floor('running totals of ' + short(path), len(locs), 1)
    judge(ck, X, short(path), args[0], args[1], st0, outs, limit, errname, rule, locs, None)

    # a context pushed on this one shares the running total and the limit
    p = CX + 'push'
    pargs = X.start(p)
    cst = X.new()
    n = fresh('n', args[1].ty)
    k = 0
    base_locs = {(('h', pargs[0]) if r == ('h', args[0]) else r, pp) for r, pp in locs}
    for o in X.call(p, pargs, cst.fork()):
        if o.kind != 'ret' or not result_of(X.e, o)[0]:
            continue
        child = result_of(X.e, o)[1]
        k += 1
        cp = X.place(o.st, child)
        st1 = o.st.fork()
        outs = X.call(path, [cp, n], st1.fork())
        judge(ck, X, 'de::Context::push/' + which, cp, n, st1, outs, limit, errname, rule,
              {rename(l, args[0], pargs[0]) for l in locs}, X.limit(cst, pargs[0], limit))
    ck.floor('subordinate contexts', k, 1)
    # a fresh context has used nothing and takes its limit from the configuration given
    p = CX + 'top'
    targs = X.start(p)
    tst = X.new()
    k = 0
    for o in X.call(p, targs, tst.fork()):
        if o.kind != 'ret':
            ck.fail(rule + '-fresh', short(p), '%s %s' % (o.kind, o.why), o.site)
            continue
        k += 1
        cp = X.place(o.st, o.val)
        st1 = o.st.fork()
        r0, p0 = X.e.addr_of(targs[0])
        lim = X.e.load(tst, r0, p0 + (('f', X.cfg[limit]),), 'usize')
        outs = X.call(path, [cp, n], st1.fork())
        for o2 in outs:
            if o2.kind != 'ret':
                ck.fail(rule + '-total', 'de::Context::top/' + which, '%s %s' % (o2.kind, o2.why), o2.site)
                continue
            good, v = result_of(X.e, o2)
            f = o2.st.f
            fits = not f.feasible([lin_sub(lin_sub(lin(n), lin(lim)), ({}, 1))])
            over = not f.feasible([lin_sub(lin(lim), lin(n))])
            ck.ob(rule + '-fresh', 'de::Context::top/' + which, fits if good else over,
                  'the first %s is not decided by n <= %s' % (which, limit), X.at)
    ck.floor('fresh contexts', k, 1)


def rename(l, a, b):
    """location l with the context argument a replaced by b"""
    r, p = l
    return (subst(r, a, b), p)


def subst(x, a, b):
    if x is a:
        return b
    if isinstance(x, tuple):
        return tuple(subst(y, a, b) for y in x)
    if isinstance(x, T):
        na = tuple(subst(y, a, b) for y in x.a)
        return mk(x.op, na, x.ty) if na != x.a else x
    return x


def ge(f, rows):
    g = f.copy()
    g.rows = g.rows + tuple(rows)
    return g


def judge(ck, X, site, ctxp, n, st0, outs, limit, errname, rule, locs, outer_limit):
    e = X.e
    lim0 = outer_limit if outer_limit is not None else X.limit(st0, ctxp, limit)
    # invariant of every reachable context: used <= limit
    inv = []
    for r, p in locs:
        old = e.load(st0, r, p, 'usize')
        inv.append(lin_sub(lin(lim0), lin(old)))
    kinds = set()
    for o in outs:
        f = ge(o.st.f, inv)
        if not f.consistent():
            continue
        if o.kind != 'ret':
            ck.fail(rule + '-total', site, '%s %s' % (o.kind, o.why), o.site)
            continue
        good, v = result_of(e, o)
        ws = X.writes(st0.mem, o.st)
        kinds.add(good)
        if good:
            okk = len(ws) == 1 and ws[0] in locs
            ck.ob(rule + '-recorded', site, okk, 'a success is not recorded in the running total shared by all '
                  'contexts of this deserialisation', X.at)
            if len(ws) == 1:
                old = e.load(st0, ws[0][0], ws[0][1], 'usize')
                new = e.load(o.st, ws[0][0], ws[0][1], 'usize')
                s = lin_add(lin(old), lin(n))
                ck.ob(rule + '-exact', site, not f.feasible([lin_sub(lin_sub(lin(new), s), ({}, 1))]) and
                      not f.feasible([lin_sub(lin_sub(s, lin(new)), ({}, 1))]),
                      'the running total does not grow by exactly the amount asked for', X.at)
                ck.ob(rule + '-limit', site, not f.feasible([lin_sub(lin_sub(s, lin(lim0)), ({}, 1))]),
                      'accepted although the total exceeds %s' % limit, X.at)
        else:
            ck.ob(rule + '-recorded', site, not ws, 'a refusal changes the running total', X.at)
            ck.ob(rule + '-error', site, is_err_variant(X.D, v, DERR, errname) and
                  v.a[2].op == 'pure' and v.a[2].a[0] == 'to_string' and v.a[2].a[1] is e.deref(st0, ctxp),
                  'the refusal is not %s at this context' % errname, X.at)
            okk = False
            for r, p in locs:
                old = e.load(st0, r, p, 'usize')
                s = lin_add(lin(old), lin(n))
                if not f.feasible([lin_sub(lin(lim0), s)]):
                    okk = True
            ck.ob(rule + '-limit', site, okk, 'refused although the total stays within %s' % limit, X.at)
    ck.ob(rule + '-total', site, kinds == {True, False}, 'outcomes: %s' % kinds, X.at)


def push_rules(ck):
    """Context::push / push_tag / top: one level deeper, same limits, bounded depth"""
    X = Ctx(ck)
    D = ck.D
    p = CX + 'push'
    a = X.start(p)
    st0 = X.new()
    e = X.e
    parent = e.deref(st0, a[0])
    d0 = e.proj(parent, ('f', X.f['depth']), 'usize')
    lim = X.limit(st0, a[0], 'recursion_limit')
    kinds = set()
    site = short(p)
    for o in X.call(p, a, st0.fork()):
        f = o.st.f
        if o.kind != 'ret':
            ck.fail('nesting-total', site, '%s %s' % (o.kind, o.why), o.site)
            continue
        good, v = result_of(e, o)
        kinds.add(good)
        if good:
            g = lambda n, ty=None: e.proj(v, ('f', X.f[n]), ty)
            ck.ob('nesting-limit', site, not f.feasible([lin_sub(lin(d0), lin(lim))]),
                  'a level is entered although the recursion limit is reached', X.at)
            s = lin_add(lin(d0), ({}, 1))
            dn = lin(g('depth', 'usize'))
            ck.ob('nesting-deeper', site, not f.feasible([lin_sub(lin_sub(dn, s), ({}, 1))]) and
                  not f.feasible([lin_sub(lin_sub(s, dn), ({}, 1))]), 'the depth does not grow by one', X.at)
            ck.ob('nesting-config', site, g('config') is e.proj(parent, ('f', X.f['config'])),
                  'the new level does not have the configuration of its parent', X.at)
            nx = g('next')
            ck.ob('nesting-path', site, nx.op == 'agg' and nx.a[1] == 1 and e.addr_of(nx.a[2]) == e.addr_of(a[0])
                  and g('field') is a[1] and g('pos') is a[2],
                  'the new level is not located at the given field of its parent', X.at)
        else:
            ck.ob('nesting-limit', site, not f.feasible([lin_sub(lin_sub(lin(lim), lin(d0)), ({}, 1))]),
                  'refused although the recursion limit is not reached', X.at)
            ck.ob('nesting-error', site, is_err_variant(D, v, DERR, 'RecursionLimitExceeded') and
                  v.a[2].op == 'pure' and v.a[2].a[0] == 'to_string' and v.a[2].a[1] is parent,
                  'the refusal is not RecursionLimitExceeded at this context', X.at)
    ck.ob('nesting-total', site, kinds == {True, False}, 'outcomes: %s' % kinds, X.at)
    p = CX + 'top'
    a = X.start(p)
    e = X.e
    for o in X.call(p, a, X.new()):
        if o.kind != 'ret':
            ck.fail('nesting-total', short(p), '%s %s' % (o.kind, o.why), o.site)
            continue
        v = o.val
        g = lambda n, ty=None: e.proj(v, ('f', X.f[n]), ty)
        ck.ob('nesting-top', short(p), is_c(g('depth', 'usize')) and cv(g('depth', 'usize')) == 0 and
              g('config') is a[0] and g('next').op == 'agg' and g('next').a[1] == 0,
              'a top-level context is not at depth 0 of the given configuration', X.at)
        ck.ob('nesting-path', short(p), is_c(g('pos', 'u64')) and cv(g('pos', 'u64')) == 0, 'not at position 0', X.at)


def push_tag_rules(ck):
    """push_tag == push with the decimal form of the tag"""
    X = Ctx(ck)
    p = CX + 'push_tag'
    hl = X.hl
    n = 0
    for tag in range(1, 64):
        a = X.start(p)
        e = X.e

        def any_(c):
            if c.x['path'] == CX + 'push':
                return hl.h_ctx(c, 'push')
            return X.any(c)
        e.hooks = {'<any>': any_}
        a[2] = C(tag, 'u8')
        st0 = X.new()
        parent = e.deref(st0, a[0])
        for o in X.call(p, a, st0.fork()):
            text = None
            for ev in o.events():
                if ev.kind == 'call' and ev.name.endswith('::from_utf8'):
                    text = digits(e, o.st, ev)
            if o.kind == 'panic' and text == tag:
                continue        # the digits are ASCII: from_utf8 succeeds
            if o.kind != 'ret':
                ck.fail('nesting-total', short(p), 'tag %d: %s %s' % (tag, o.kind, o.why), o.site)
                continue
            n += 1
            ps = [ev for ev in o.events() if ev.kind == 'ctx' and ev.name == 'push']
            good, v = result_of(e, o)
            ck.ob('nesting-tag', short(p), len(ps) == 1 and ps[0].x['ctx'] is parent and
                  ps[0].args[2] is a[3] and text == tag, 'tag %d is not pushed under its number' % tag, X.at)
            if len(ps) == 1:
                ck.ob('nesting-tag', short(p) + '/result', good == ps[0].x['ok'] and
                      v is (ps[0].x['v'] if good else ps[0].x['err']), 'not the outcome of push', X.at)
    ck.floor('tags pushed', n, 126)


def digits(e, st, ev):
    s = ev.args[0]
    try:
        v = e.load(st, *e.addr_of(s))
        ln = e.length(s)
        ln = cv(ln) if is_c(ln) else None
        r = 0
        for i in range(ln):
            b = e.proj(v, ('i', C(i, 'usize')), 'u8')
            if not is_c(b) or not 48 <= cv(b) <= 57:
                return None
            r = r * 10 + cv(b) - 48
        return r
    except Exception:
        return None


def unknown_rules(ck):
    X = Ctx(ck)
    D = ck.D
    p = CX + 'unknown_field'
    a = X.start(p)
    e = X.e
    st0 = X.new()
    parent = e.deref(st0, a[0])
    c = e.proj(parent, ('f', X.f['config']))
    flag = e.load(st0, e.addr_of(c)[0], e.addr_of(c)[1] + (('f', X.cfg['ignore_unknown_fields']),), 'bool')
    fv = e.deref(st0, a[1])
    tag, pos = (e.proj(fv, ('f', fld(D, FIELD, n)), t) for n, t in (('tag', 'u8'), ('pos', 'u64')))
    kinds = set()
    for o in X.call(p, a, st0.fork()):
        if o.kind != 'ret':
            ck.fail('unknown-config', short(p), '%s %s' % (o.kind, o.why), o.site)
            continue
        good, v = result_of(e, o)
        kinds.add(good)
        ck.ob('unknown-config', short(p), refuted(o.st.f, flag, not good),
              '%s although ignore_unknown_fields says otherwise' % ('allowed' if good else 'refused'), X.at)
        if good is False:
            ck.ob('unknown-error', short(p), is_err_variant(D, v, DERR, 'UnknownField') and
                  v.a[2] is mk('pure', ('to_string', parent), v.a[2].ty) and v.a[3] is tag and v.a[4] is pos,
                  'the error does not name the field and its place', X.at)
    ck.ob('unknown-config', short(p) + '/both', kinds == {True, False}, 'outcomes %s' % kinds, X.at)


def default_rules(ck, want, rule='default'):
    D = ck.D
    X = Ctx(ck)
    p = '<fourleaf::de::Config as core::default::Default>::default'
    a = X.start(p)
    for o in X.call(p, a, X.new()):
        if o.kind != 'ret':
            ck.fail(rule, short(p), '%s %s' % (o.kind, o.why), o.site)
            continue
        for n, v in want.items():
            t = X.e.proj(o.val, ('f', X.cfg[n]), 'bool' if isinstance(v, bool) else 'usize')
            ck.ob(rule, '%s/%s' % (short(p), n), is_c(t) and cv(t) == int(v) if not isinstance(v, bool) else
                  t is (TRUE if v else FALSE), 'the default of %s is %s' % (n, show(t)), X.at)


# ------------------------------------------------------------------ formatting

def written(e, evs):
    """text and arguments a formatting function writes, in order, or None"""
    seq = []
    for ev in evs:
        if ev.kind != 'call':
            continue
        n = ev.name.split('::')[-1]
        if n == 'write_str':
            s = ev.args[1]
            t = text_of(s)
            if t is None:
                return None
            seq.append(t)
        elif n == 'write_char':
            c = ev.args[1]
            if not is_c(c):
                return None
            seq.append(chr(cv(c)))
        elif n == 'write_fmt':
            r = fmt_parts(e, ev)
            if r is None:
                return None
            seq += r
        elif n == 'fmt':
            seq.append(shown(e, ev, ev.args[0]))
        else:
            return None
    res = []
    for x in seq:
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        elif x != '':
            res.append(x)
    return res


def text_of(t):
    if t.op == 'refc':
        t = t.a[0]
    if t.op in ('str', 'bytes'):
        v = t.a[0]
        return v if isinstance(v, str) else bytes(v).decode('utf8', 'replace')
    if t.op == 'c' and isinstance(t.a[0], (str, bytes)):
        return t.a[0] if isinstance(t.a[0], str) else t.a[0].decode('utf8', 'replace')
    return None


def mem_at(e, ev):
    return St(dict(ev.mem), ev.f, None) if ev.mem is not None else None


def shown(e, ev, p):
    """the object behind a (possibly nested) reference"""
    st = mem_at(e, ev)
    v = e.deref(st, p)
    return v


def fmt_parts(e, ev):
    a = ev.args[1]
    st = mem_at(e, ev)
    if a.op != 'pure' or not a.a[0].startswith('core::fmt::Arguments'):
        return None
    if a.a[0].split('::')[-1] in ('from_str', 'from_str_nonconst', 'new_const'):
        t = text_of(a.a[1])
        return None if t is None else [t]
    tpl = a.a[1]
    if tpl.op != 'refc' or tpl.a[0].op != 'bytes':
        return None
    bs = tpl.a[0].a[0]
    args = e.deref(st, a.a[2])
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0xC0:
            x = e.proj(args, ('i', C(k, 'usize')))
            k += 1
            out.append(arg_of(e, st, x))
        else:
            return None
    return out


def arg_of(e, st, x):
    """object a format argument displays"""
    if x.op != 'pure':
        return x
    p = x.a[1]
    return e.deref(st, p)


def ident(e, st, v):
    """follow references to the object itself"""
    for _ in range(6):
        if v.op in ('ref',) or (isinstance(v.ty, int) and e.D.tys[v.ty]['k'] in ('ref', 'ptr')):
            n = e.deref(st, v)
            if n is v:
                break
            v = n
        else:
            break
    return v


def shows(ck, site, e, o, want, rule, at):
    """does this outcome write exactly `want` (strings and object terms)?"""
    evs = [ev for ev in o.events() if ev.kind == 'call']
    got = written(e, evs)
    if got is None:
        return ck.fail(rule, site, 'what is displayed cannot be determined', at)
    st = o.st
    flat_ = [x if isinstance(x, str) else ident(e, st, x) for x in got]
    w = [x if isinstance(x, str) else ident(e, st, x) for x in want]
    last = evs[-1] if evs else None
    partial = last is not None and last.ret is not None and st.f.known.get(e.discr(last.ret, 'isize')) == 1
    n = len(flat_)
    same = len(flat_) <= len(w) and all(x is y or x == y for x, y in zip(flat_, w))
    return ck.ob(rule, site, same and (n == len(w) or partial),
                 'displays %s instead of %s' % ([x if isinstance(x, str) else show(x)[:30] for x in flat_],
                                                [x if isinstance(x, str) else show(x)[:30] for x in w]), at)


def display_rules(ck):
    D = ck.D
    hl = HL(D)
    X = Ctx(ck)
    n = 0
    for r in D.roots:
        if r.get('impl_trait') != 'core::fmt::Display' or r['name'] != 'fmt':
            continue
        p = r['path']
        if p.startswith('<fourleaf::de::Context'):
            m = Method(ck, hl, r)
            e = m.e
            c = e.deref(m.run.st0, m.args[0])
            nx = e.proj(c, ('f', X.f['next']))
            for o in m.outs:
                if o.kind != 'ret':
                    ck.fail('path-shown', m.site, '%s %s' % (o.kind, o.why), o.site)
                    continue
                k = variant(e, o.st, nx)
                tail = [e.proj(c, ('f', X.f['field'])), '{', e.proj(c, ('f', X.f['pos'])), '}']
                if k is None:
                    ck.fail('path-shown', m.site, 'whether there is an outer level is not examined', m.at)
                    continue
                n += 1
                head = [e.proj(nx, ('v', 1, 0)), '.'] if k == 1 else []
                shows(ck, m.site + ('/inner' if k else '/top'), e, o, head + tail, 'path-shown', m.at)
        elif p.startswith('<fourleaf::de::Error'):
            m = Method(ck, hl, r)
            e = m.e
            c = e.deref(m.run.st0, m.args[0])
            for o in m.outs:
                if o.kind != 'ret':
                    ck.fail('error-shown', m.site, '%s %s' % (o.kind, o.why), o.site)
                    continue
                k = variant(e, o.st, c)
                if k is None:
                    ck.fail('error-shown', m.site, 'the kind of error is not examined', m.at)
                    continue
                name = variant_name(D, DERR, k)
                if name.startswith('_'):
                    continue
                got = written(e, [ev for ev in o.events() if ev.kind == 'call'])
                parts = [ident(e, o.st, x) for x in got or [] if isinstance(x, T)]
                t = [t for t in D.tys if t['k'] == 'adt' and t['path'] == DERR][0]
                for i, f in enumerate(t['vs'][k]['f']):
                    w = e.proj(c, ('v', k, i))
                    n += 1
                    ck.ob('error-shown', '%s/%s.%d' % (m.site, name, i), any(
                        within(x, w) or x is ident(e, o.st, w) for x in parts),
                        'the message does not contain this part of the error', m.at)
    ck.floor('displayed parts of contexts and errors', n, 20)
