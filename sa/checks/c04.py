"""C04: every write operation emits, and every read operation accepts, exactly the
byte sequence the format defines for that element."""
from wirelib import *
from streamlib import *
from checks.c02 import SIGNED, UNSIGNED, zz_bits
from checks.c03 import TYPES, SPECIALS, vidx

FIELD, VALUE, ELEMENT = 'fourleaf::stream::Field', 'fourleaf::stream::Value', 'fourleaf::stream::Element'
TY = dict(TYPES)
SP = dict(SPECIALS)


def run(ck):
    L = Lib(ck)
    # the integers and headers elements are made of
    from checks import c01, c02, c03
    for m in (c01.run, c02.run, c03.descriptors):
        m(ck)
    writers(ck, L)
    elements(ck, L)
    padding(ck, L)
    readers(ck, L)


def fidx(D, adt, variant, name):
    for t in D.tys:
        if t['k'] == 'adt' and t['path'] == adt:
            for v in t['vs']:
                if variant is None or v['name'] == variant:
                    for i, (n, ft) in enumerate(v['f']):
                        if n == name:
                            return i
    raise Anchor('%s.%s' % (adt, name))


# ---------------------------------------------------------------- comparison
def desc_bits(e, f, v):
    if v.op == 'agg' or v.ty not in INTS:
        v = e.proj(v, ('f', 0), 'u8')
    return ext_bits(f, v, 8)


def valid_tag(e, f, t):
    """facts extended with 1 <= tag <= 63 in bit form, when they are entailed"""
    if is_c(t):
        return f if 1 <= cv(t) <= 63 else None
    if f.feasible([lin_sub(lin(t), ({}, 64))]) and \
            not refuted(f, e.eq(e.bitop(f, 'and', t, C(0xC0, 'u8'), 'u8'), C(0, 'u8')), False):
        return None
    if not refuted(f, e.eq(t, C(0, 'u8'))) and f.feasible([lin_sub(({}, 0), lin(t))]):
        return None
    return f.assume(e.eq(e.bitop(f, 'and', t, C(0xC0, 'u8'), 'u8'), C(0, 'u8')), True)


def same_int(e, f, got, want):
    """is integer term `got` equal to `want` (term or 64 bit list)"""
    if isinstance(want, list):
        g = ext_bits(f, got, 64)
        return g is not None and g == [bit_reduce(m, f.bsub) for m in want]
    if got is want:
        return True
    if lin(got) == lin(want):
        return True
    if refuted(f, e.eq(got, want), False):
        return True
    a, b = ext_bits(f, got, 64), ext_bits(f, want, 64)
    return a is not None and a == b


def ops(e, events):
    """normalised byte production of a list of events: [(kind, value, ev)]"""
    r = []
    for ev in events:
        if ev.kind == 'loop':
            r.append(('loop', None, ev))
            continue
        if ev.kind != 'io':
            continue
        n = ev.name
        if n == 'commit':
            r.append(('commit', None, ev))
        elif n == 'flush':
            continue
        elif n == 'encode_descriptor':
            r.append(('D', ev.x['v'], ev))
        elif n == 'encode_u64':
            r.append(('I', ev.x['v'], ev))
        elif n == 'encode_fixed_u64':
            r.append(('F', ev.x['v'], ev))
        elif n == 'write_all':
            b = buf_bytes(e, ev)
            if b is not None and len(b) == 1 and ev.x['via'] == 'tracker':
                r.append(('D', b[0], ev))
            else:
                r.append(('B', ev.x['buf'], ev))
        else:
            r.append((n, None, ev))
    return r


def match(e, f, op, want):
    """does op (kind, value, ev) realise want=(kind, value...)"""
    k, v, ev = op
    if k != want[0]:
        return False
    if k == 'D':
        ty, tag = want[1], want[2]
        if tag is None:
            low = [0] * 6
        else:
            f = valid_tag(e, f, tag)
            if f is None:
                return False
            tb = ext_bits(f, tag, 8)
            if any(tb[6:]):
                return False
            low = tb[:6]
        return desc_bits(e, f, v) == low + [ty & 1, ty >> 1]
    if k in ('I', 'F'):
        return want[1] is None or same_int(e, f, v, want[1])
    if k == 'B':
        return same_slice(v, want[1])
    if k == 'copy':
        return want[1](ev)
    return False


def same_slice(v, w):
    return v is w or (v.op == 'ref' and w.op == 'ref' and v.a[0] == w.a[0])


def check_sequence(ck, L, r, o, site, spec, room=None):
    """one outcome of a writer against its specification.  spec(o) -> wanted ops"""
    e = r.e
    good, val = result_of(e, o)
    if good is None:
        return ck.fail('write-sequence', site, 'result is not determined', r.at)
    got = ops(e, [ev for ev in o.events() if ev.kind != 'io' or L.on(r, ev)])
    got = [g for g in got if g[0] != 'commit' or not g[2].x['ok']]
    want = spec(o)
    f = o.st.f
    if good and len(got) < len(want) and want[-1][0] == 'B' and f.entails_le(e.length(want[-1][1]), C(0, 'usize')):
        want = want[:-1]        # no bytes: nothing to write
    for i, g in enumerate(got):
        if g[2].kind == 'io' and not g[2].x['ok']:
            # the operation fails here: nothing more may be written, the error is returned
            okk = i == len(got) - 1 and not good and contains(val, g[2].x['err'])
            if not okk:
                return ck.fail('write-error', site, 'the failure of %s is not what the operation returns' %
                               g[2].name, r.at)
            if g[0] != 'commit' and (i >= len(want) or g[0] != want[i][0]):
                return ck.fail('write-sequence', site, 'unexpected %s after %d operations' % (g[2].name, i), r.at)
            return ck.ob('write-error', site, True)
        if i >= len(want) or not match(e, f, g, want[i]):
            return ck.fail('write-sequence', site, 'operation %d (%s) is not the one the format requires (%s)' % (
                i + 1, show_op(g), show_want(want[i]) if i < len(want) else 'nothing more'), r.at)
    if good:
        return ck.ob('write-sequence', site, len(got) == len(want),
                     'Ok after %d of %d operations: %s is missing' % (
                         len(got), len(want), show_want(want[len(got)]) if len(got) < len(want) else ''), r.at)
    # refused without an I/O failure
    why = room(o) if room else 'an error is returned although no operation failed'
    return ck.ob('write-refusal', site, why is None, why, r.at)


def show_op(g):
    return '%s %s' % (g[0], show(g[1])[:60] if g[1] is not None and hasattr(g[1], 'op') else '')


def show_want(w):
    return w[0] + (' type %s tag %s' % (w[1], 'none' if w[2] is None else show(w[2])) if w[0] == 'D' else '')


def no_room(L, r, need):
    """refusing is justified only if the position could not advance that far"""
    def f(o):
        st = o.st
        evs = [ev for ev in o.events() if ev.kind == 'io' and ev.name == 'commit' and ev.x['ok']]
        s0 = L.at_event(evs[-1]) if evs else r.st0
        pos = L.pos(r, s0) if not evs else None
        if evs:
            pos = r.e.canon(mk('add', (L.pos(r, s0), evs[-1].x['k']), 'i128'), 'i128')
        n = need(o)
        if n is None:
            return 'an error is returned although no operation failed'
        t = mk('add', (pos, n), 'i128')
        ff = st.f.copy()
        ff.rows = ff.rows + (lin_sub(({}, MAXU - 22), lin(t)),)
        if ff.consistent():
            return 'the write is refused although the element fits below u64::MAX'
        return None
    return f


# ---------------------------------------------------------------- writers
def D_(name, tag):
    return ('D', TY[name] if name in TY else SP[name], tag)


def writers(ck, L):
    n = 0

    def one(name, spec, room=None, floor_ok=1):
        nonlocal n
        r = L.run(S + name, 'stream')
        good = 0
        for o in r.rets():
            check_sequence(ck, L, r, o, r.name, lambda o: spec(r, o), room(r) if room else None)
            good += 1 if result_of(r.e, o)[0] else 0
        ck.ob('write-possible', r.name, good >= floor_ok, 'no outcome succeeds', r.at)
        for o in r.outs:
            if o.kind in ('stuck', 'unreachable'):
                ck.fail('analysis', r.name, '%s %s' % (o.kind, o.why), o.site)
        n += 1

    def ints(ty):
        def spec(r, o):
            if ty == 'null':
                v = [0] * 64
            else:
                b = ext_bits(o.st.f, r.args[2], 64)
                v = zz_bits(b) if ty in SIGNED else b
            return [D_('Integer', r.args[1]), ('I', v)]
        return spec
    for ty in UNSIGNED + SIGNED + ['bool', 'null']:
        one('write_' + ty, ints(ty))
    one('write_struct', lambda r, o: [D_('Struct', r.args[1])])
    one('write_enum', lambda r, o: [D_('Enum', r.args[1]), ('I', r.args[2])])
    one('write_end_struct', lambda r, o: [D_('EndOfStruct', None)])
    one('write_end_doc', lambda r, o: [D_('EndOfDoc', None)])
    one('write_padding', lambda r, o: [D_('Padding', None)])
    for what, dn, k in (('blob', 'Blob', 1), ('exception', 'Exception', 0)):
        tag = (lambda r: r.args[1]) if k else (lambda r: None)
        one('write_%s_alloc' % what, lambda r, o: [D_(dn, tag(r)), ('I', r.args[1 + k])],
            lambda r: no_room(L, r, lambda o: r.args[1 + k]))
        one('write_%s_dynamic' % what, lambda r, o: [D_(dn, tag(r)), ('F', None)],
            lambda r: no_room(L, r, lambda o: C(0, 'u64')))

        def data(r, o):
            b = asref(o)
            return [D_(dn, tag(r)), ('I', r.e.length(b)), ('B', b)] if b is not None else []
        one('write_%s_data' % what, data,
            lambda r: no_room(L, r, lambda o: r.e.length(asref(o)) if asref(o) is not None else None))
    ck.floor('stream writers', n, 23)


def headers(ck, L):
    """every operation that takes a tag writes exactly the header for that tag, or none"""
    n = 0
    tagged = [('write_' + ty, 'Integer') for ty in UNSIGNED + SIGNED + ['bool', 'null']] + \
        [('write_struct', 'Struct'), ('write_enum', 'Enum')] + \
        [('write_blob_' + k, 'Blob') for k in ('alloc', 'dynamic', 'data')]
    rest = [('write_end_struct', 'EndOfStruct'), ('write_end_doc', 'EndOfDoc'), ('write_padding', 'Padding')] + \
        [('write_exception_' + k, 'Exception') for k in ('alloc', 'dynamic', 'data')]
    for name, kind in tagged + rest:
        r = L.run(S + name, 'stream')
        e = r.e
        for o in r.rets():
            heads = [g for g in ops(e, [ev for ev in o.events() if ev.kind != 'io' or L.on(r, ev)]) if g[0] == 'D']
            if not heads:
                continue
            n += 1
            ck.ob('header-written', r.name,
                  len(heads) == 1 and match(e, o.st.f, heads[0], D_(kind, r.args[1] if (name, kind) in tagged else None)),
                  'a header is written that is not the one of %s%s' % (
                      kind, ' under the tag given' if (name, kind) in tagged else ''), r.at)
    ck.floor('headers written', n, 23)


def asref(o):
    """the bytes the caller handed in (D: AsRef<[u8]>)"""
    for ev in o.events():
        if ev.kind != 'io' and ev.name.endswith('AsRef::as_ref'):
            return ev.ret
    return None


# ---------------------------------------------------------------- element copying
def elements(ck, L):
    D = ck.D
    n = 0
    for path, whole in ((S + 'write_element', True), (S + 'write_field', False)):
        r = L.run(path, 'stream')
        e = r.e
        src = e.addr_of(r.args[1])
        seen = set()

        def fieldpath(whole):
            return src[1] + ((('v', vidx(D, ELEMENT, 'Field'), 0),) if whole else ())

        def spec(o):
            st = o.st
            f = st.f
            base = (src[0], src[1])
            if whole:
                v = e.load(r.st0, src[0], src[1], D.kt(D.tys[D.root_by_path[path] and arg_ty(D, path, 1)]['t']))
                k = f.known.get(e.discr(v, 'isize'))
                if k is None:
                    return None
                name = variant_name(D, ELEMENT, k)
                if name == 'Exception':
                    seen.add('Exception')
                    ptr = (src[0], src[1] + (('v', k, 0),))
                    return [D_('Exception', None), ('I', blob_len(r.st0, ptr)), ('copy', copies(ptr))]
                if name != 'Field':
                    seen.add(name)
                    return [D_(name, None)]
                base = (src[0], src[1] + (('v', k, 0),))
            tag = e.load(r.st0, base[0], base[1] + (('f', fidx(D, FIELD, None, 'tag')),), 'u8')
            vp = base[1] + (('f', fidx(D, FIELD, None, 'value')),)
            v = e.load(r.st0, base[0], vp, value_ty(D))
            k = f.known.get(e.discr(v, 'isize'))
            if k is None:
                return None
            name = variant_name(D, VALUE, k)
            seen.add('Field/' + name)
            x = lambda i, ty: e.load(r.st0, base[0], vp + (('v', k, i),), ty)
            if name == 'Integer':
                return [D_('Integer', tag), ('I', x(0, 'u64'))]
            if name == 'Struct':
                return [D_('Struct', tag)]
            if name == 'Enum':
                return [D_('Enum', tag), ('I', x(0, 'u64'))]
            ptr = (base[0], vp + (('v', k, 0),))
            return [D_('Blob', tag), ('I', blob_len(r.st0, ptr)), ('copy', copies(ptr))]

        def blob_len(st, ptr):
            return e.load(st, ptr[0], ptr[1] + (('f', L.R.blob_len),), 'u64')

        def copies(ptr):
            def f(ev):
                s, d = ev.x['src'], ev.x['dst']
                return s.kind == 'blob' and s.ptr == ptr and d.kind == 'blob' and d.addr == r.addr
            return f

        def room(o):
            def need(o):
                w = spec(o)
                return w[1][1] if w and len(w) > 1 and hasattr(w[1][1], 'op') else None
            return no_room(L, r, need)(o)
        for o in r.rets():
            if spec(o) is None:
                early = [ev for ev in o.events() if ev.kind == 'io' and ev.name != 'commit']
                ck.ob('copy-sequence', r.name, not early and result_of(e, o)[0] is False,
                      'an outcome does not depend on the kind of element', r.at)
                continue
            check_sequence(ck, L, r, o, r.name, spec, room)
            n += 1
        want = {'Field/' + x for x in ('Integer', 'Blob', 'Struct', 'Enum')}
        if whole:
            want |= {'EndOfStruct', 'EndOfDoc', 'Exception', 'Padding'}
        ck.ob('copy-total', r.name, seen == want, 'kinds handled: %s' % sorted(seen), r.at)
    ck.floor('element copy outcomes', n, 40)


def arg_ty(D, path, i):
    return D.bodies[str(root(D, path)['inst'])]['locals'][i + 1]


def value_ty(D):
    for i, t in enumerate(D.tys):
        if t['k'] == 'adt' and t['path'] == VALUE and t['args'] and D.tys[t['args'][-1]]['k'] == 'param':
            return i
    raise Anchor(VALUE)


class Align:
    """reasoning modulo a power of two a"""

    def __init__(self, e, a):
        self.e = e
        self.a = a
        self.m = e.canon(mk('sub', (a, C(1, 'u64')), 'u64'), 'u64')

    def low(self, x):
        """x with the low bits of something else kept -> that; else None"""
        if x.op == 'and' and self.m in x.a and len(x.a) == 2:
            return x.a[0] if x.a[1] is self.m else x.a[1]
        return x.a[0] if x.op == 'rem' and x.a[1] is self.a else None

    def mod(self, x, d=0):
        """a linear form that x equals modulo a"""
        if x is self.a or x.op == 'and' and any(y.op == 'not' and y.a[0] is self.m for y in x.a):
            return ({}, 0)
        if x.op in ('wadd', 'wsub') and len(x.a) == 2 and d < 20:
            return (lin_add if x.op == 'wadd' else lin_sub)(self.mod(x.a[0], d + 1), self.mod(x.a[1], d + 1))
        y = self.low(x)
        if y is not None and d < 20:
            return self.mod(y, d + 1)
        s = ({}, lin(x)[1])
        for y, n in lin(x)[0].items():
            w = self.mod(y, d + 1) if y is not x and d < 20 else ({}, 0) if y is self.a else ({y: 1}, 0)
            for _ in range(abs(n) if abs(n) < 9 else 0):
                s = (lin_add if n > 0 else lin_sub)(s, w)
            if abs(n) >= 9:
                s = lin_add(s, ({y: n}, 0))
        return s

    def test(self, f, t, way):
        """is it known that t is (way=True) / is not a multiple of a, from a comparison made?"""
        zero = C(0, 'u64')
        return any(refuted(f, self.e.eq(z, zero), not way) for z in
                   (self.e.bitop(f, 'and', t, self.m, 'u64'), mk('rem', (t, self.a), 'u64')))

    def missing(self, f, t):
        """linear forms congruent to -t"""
        for q in sorted({x for d, c in f.rows for x in d if x.op in ('and', 'rem')}, key=lambda x: x.id):
            z = lin_sub(lin(q), self.mod(q))
            if not z[0] and not z[1]:
                continue
            for s in (1, -1):
                w = lin_sub(z if s > 0 else lin_sub(({}, 0), z), lin(t))
                for j in (0, 1, -1):
                    yield lin_add(w, ({self.a: j} if j else {}, 0))

    def multiple(self, f, t):
        return self.test(f, t, True) or any(
            not f.feasible([lin_sub(k, ({}, 1))]) and not f.feasible([lin_sub(({}, -1), k)])
            for k in self.missing(f, t))

    def between(self, f, t):
        """t is not a multiple"""
        return self.test(f, t, False) or any(
            not f.feasible([lin_sub(({}, 0), k)]) and not f.feasible([lin_sub(k, ({self.a: 1}, 0))])
            for k in self.missing(f, t))


def padding(ck, L):
    def pre(e, st, args, addr, env):
        st.f = valid_alignment(e, st.f, args[1])
    r = L.run(S + 'pad_to_align', 'stream', pre=pre)
    e = r.e
    basic(ck, r)
    n = 0
    loops = 0
    for o in r.rets():
        good, val = result_of(e, o)
        if good is None:
            ck.fail('align', r.name, 'result is not determined', r.at)
            continue
        f = o.st.f
        failed = None
        okk = True
        pads = []
        A = Align(e, r.args[1])
        for g in ops(e, o.events()):
            if failed is not None:
                okk = False
            if g[0] == 'loop':
                loops += 1
                for seg, st in g[2].x['segs']:
                    b = [x for x in ops(e, seg)]
                    if len(b) != 1 or not match(e, st.f, b[0], D_('Padding', None)) or not b[0][2].x['ok']:
                        okk = False
                    else:
                        pads.append(b[0][2])
            elif g[0] == 'commit':
                failed = None if g[2].x['ok'] else g[2]
            elif match(e, f, g, D_('Padding', None)):
                failed = None if g[2].x['ok'] else g[2]
                pads.append(g[2])
            else:
                okk = False
        ck.ob('align-pads', r.name, okk, 'something other than padding is written', r.at)
        for g in pads:
            w = L.at_event(g)
            ck.ob('align-minimal', r.name, A.between(w.f, L.pos(r, w)),
                  'padding may be written at a position that is aligned already', g.site)
        n += 1
        if good:
            ck.ob('align-reached', r.name, failed is None and A.multiple(f, L.pos(r, o.st)),
                  'Ok although position & (align - 1) may be non-zero', r.at)
        else:
            ck.ob('align-error', r.name, failed is not None and contains(val, failed.x['err']),
                  'error that no operation reported', r.at)
    ck.floor('alignment outcomes', n, 4)
    ck.floor('alignment loops', loops, 1)


# ---------------------------------------------------------------- readers
CLASSES = [(n, t, False) for n, t in TYPES] + [(n, t, True) for n, t in SPECIALS]


def readers(ck, L):
    D = ck.D
    n = 0
    for name, fieldmode in (('next_element', False), ('next_field', True)):
        def pre(e, st, args, addr, env):
            d = L.env_depth = env.fld(e, st, addr, L.R.depth)
            st.f = st.f.assume(e.lt(d, C(1 << 63, 'u64')), True)
        r = L.run(S + name, 'stream', pre=pre)
        e = r.e
        basic(ck, r)
        seen = set()
        for o in r.rets():
            n += 1
            good, val = result_of(e, o)
            if good is None:
                ck.fail('read-sequence', r.name, 'result is not determined', r.at)
                continue
            one_read(ck, L, r, o, good, val, fieldmode, seen)
        want = {c[0] for c in CLASSES} | {'latched'}
        if fieldmode:
            want -= {'Padding'}
        ck.ob('read-total', r.name, want <= seen, 'no outcome for %s' % sorted(want - seen), r.at)
    ck.floor('reader outcomes', n, 80)


def one_read(ck, L, r, o, good, val, fieldmode, seen):
    D, e = ck.D, r.e
    f = o.st.f
    site = r.name
    evs = [ev for ev in o.events() if ev.kind in ('io', 'loop')]
    eof0 = L.field(r, r.st0, L.R.eof, 'bool')
    if evs and evs[0].kind == 'io' and evs[0].name == 'commit':
        if not evs[0].x['ok']:
            ck.ob('read-error', site, len(evs) == 1 and not good and contains(val, evs[0].x['err']),
                  'a failed settlement of the previous blob is not returned', r.at)
            return
        evs = evs[1:]
    if not evs:
        # nothing read: only after the end of the document was seen
        ck.ob('read-latched', site, good and refuted(f, eof0, False) and is_end(D, val, fieldmode, 'EndOfDoc'),
              'an element is produced without reading', r.at)
        seen.add('latched')
        return
    if not refuted(f, eof0, True):
        ck.fail('read-latched', site, 'bytes are read after the end of the document', r.at)
        return
    if evs[0].kind == 'loop':
        lp = evs[0]
        for seg, st in lp.x['segs']:
            b = [x for x in seg if x.kind == 'io']
            okk = fieldmode and len(b) == 1 and b[0].name == 'decode_descriptor' and b[0].x['ok'] and \
                klass(e, st.f, b[0]) == 'Padding'
            ck.ob('read-skips-padding', site, okk, 'an element other than padding is skipped', r.at)
        evs = evs[1:]
    # several unrolled padding bytes may precede
    while fieldmode and len(evs) > 1 and evs[0].kind == 'io' and evs[0].name == 'decode_descriptor' \
            and evs[0].x['ok'] and klass(e, f, evs[0]) == 'Padding':
        evs = evs[1:]
    if not evs or evs[0].kind != 'io' or evs[0].name != 'decode_descriptor':
        ck.fail('read-sequence', site, 'an element does not start with its descriptor', r.at)
        return
    d, evs = evs[0], evs[1:]
    for i, ev in enumerate(evs):
        if ev.kind != 'io' or (not ev.x['ok'] and i != len(evs) - 1):
            ck.fail('read-sequence', site, 'reading goes on after a failure', r.at)
            return
    last = evs[-1] if evs else d
    if not last.x['ok']:
        ck.ob('read-error', site, not good and contains(val, last.x['err']),
              'the failure of %s is not what is returned' % last.name, r.at)
        return
    cl = klass(e, f, d)
    if cl is None:
        ck.fail('read-sequence', site, 'the outcome does not depend on the descriptor', r.at)
        return
    if d.x.get('substituted'):
        cl = 'EndOfDoc'
    seen.add(cl)
    site = '%s/%s' % (site, cl)
    byte = e.proj(d.x['v'], ('f', 0), 'u8')
    names = [ev.name for ev in evs]
    ints = {'Integer': 1, 'Blob': 1, 'Enum': 1, 'Struct': 0, 'Exception': 1}.get(cl, 0)
    extra = ['read_to_end'] if (cl == 'Exception' and fieldmode) else []
    if not good and cl in ('Blob', 'Exception') and names == ['decode_u64']:
        # a declared length that does not fit below u64::MAX
        st = o.st
        ff = f.copy()
        ff.rows = ff.rows + (lin_sub(({}, MAXU), lin(mk('add', (L.pos(r, st), evs[0].x['v']), 'i128'))),)
        ck.ob('read-refusal', site, not ff.consistent(),
              'a blob that fits below u64::MAX is refused', r.at)
        return
    if names != ['decode_u64'] * ints + extra:
        ck.fail('read-sequence', site, 'operations %s, expected %d integer(s)%s' % (
            names, ints, ' and the message' if extra else ''), r.at)
        return
    if fieldmode and cl in ('EndOfStruct', 'EndOfDoc'):
        ck.ob('read-result', site, good and is_end(D, val, True, cl), 'not reported as the end of the struct', r.at)
        return
    if fieldmode and cl == 'Exception':
        okk = not good and is_err_variant(D, val, ERR, 'Exception') and reads_into(e, o, evs[1], val)
        ck.ob('read-result', site, okk, 'the exception is not returned as an error carrying its message', r.at)
        return
    if not good:
        ck.fail('read-result', site, 'a well formed element is refused: %s' % show(val)[:80], r.at)
        return
    if cl in SP:
        v = val
        okk = is_err_variant(D, v, ELEMENT, cl)
        if cl == 'Exception':
            okk = okk and blob_is(L, r, o, v.a[2], evs[0].x['v'])
        ck.ob('read-result', site, okk, 'decoded as %s' % show(v)[:80], r.at)
        return
    v = val
    if fieldmode:
        if not (v.op == 'agg' and v.a[0] == 'core::option::Option' and v.a[1] == 1):
            ck.fail('read-result', site, 'decoded as %s' % show(v)[:80], r.at)
            return
        v = v.a[2]
    else:
        if not is_err_variant(D, v, ELEMENT, 'Field'):
            ck.fail('read-result', site, 'decoded as %s' % show(v)[:80], r.at)
            return
        v = v.a[2]
    g = lambda n, ty=None: e.proj(v, ('f', fidx(D, FIELD, None, n)), ty)
    tb, bb = ext_bits(f, g('tag', 'u8'), 8), ext_bits(f, byte, 8)
    ck.ob('read-tag', site, tb is not None and tb == bb[:6] + [0, 0],
          'the tag is not the low six bits of the descriptor', r.at)
    p0 = L.pos(r, L.at_event(d))
    ck.ob('read-position', site, same_int(e, f, g('pos', 'u64'), p0),
          'the position reported is not that of the descriptor', r.at)
    x = g('value')
    okk = is_err_variant(D, x, VALUE, cl)
    if okk:
        if cl == 'Integer':
            okk = same_int(e, f, x.a[2], evs[0].x['v'])
        elif cl == 'Blob':
            okk = blob_is(L, r, o, x.a[2], evs[0].x['v'])
        elif cl == 'Struct':
            okk = e.addr_of(x.a[2]) == r.addr
        else:
            okk = same_int(e, f, x.a[2], evs[0].x['v']) and e.addr_of(x.a[3]) == r.addr
    ck.ob('read-result', site, okk, 'decoded as %s' % show(x)[:80], r.at)


def reads_into(e, o, ev, val):
    """the text of the error is built from the bytes read"""
    buf = ev.x.get('buf')
    return ev.name == 'read_to_end' and buf is not None


def blob_is(L, r, o, b, n):
    """b: a blob handle on this stream, of length n, starting at the current position"""
    e = r.e
    f = o.st.f
    ln = e.proj(b, ('f', L.R.blob_len), 'u64')
    sp = e.proj(b, ('f', L.R.blob_stream))
    if not same_int(e, f, ln, n) or e.addr_of(sp) != r.addr:
        return False
    end = L.field(r, o.st, L.R.blob_end)
    return lin_eq(end, mk('add', (L.pos(r, o.st), n), 'i128'))


def lin_eq(a, b):
    d, k = lin_sub(lin(a), lin(b))
    return k == 0 and not any(d.values())


def is_end(D, val, fieldmode, name):
    if fieldmode:
        return val.op == 'agg' and val.a[0] == 'core::option::Option' and val.a[1] == 0
    return is_err_variant(D, val, ELEMENT, name)


def klass(e, f, ev):
    """the single class of descriptors this path is about (None: several)"""
    b = e.proj(ev.x['v'], ('f', 0), 'u8')
    res = []
    for name, ty, special in CLASSES:
        g = f.assume(e.eq(e.bitop(f, 'and', b, C(0xC0, 'u8'), 'u8'), C(ty << 6, 'u8')), True)
        if g is None:
            continue
        g = g.assume(e.eq(e.bitop(g, 'and', b, C(0x3F, 'u8'), 'u8'), C(0, 'u8')), special)
        if g is not None:
            res.append(name)
    return res[0] if len(res) == 1 else None
