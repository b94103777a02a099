"""C18: whatever bytes are decoded, nothing panics or allocates what was merely announced."""
from streamlib import *
from delib import *
from hlrules import variant
from codec import m_accum, ARRACC
import ctxlib
from checks.c07 import prepare, depth_full
from checks.c09 import mid_skip

CXP = 'fourleaf::de::Context'

# std functions that panic (or have undefined results) for some arguments; a call is a
# violation unless an obligation below shows that it cannot on this path
PARTIAL = re.compile(r'''(
    ::Vec::<.*>::(remove|swap_remove|insert|split_off|drain|splice|extend_from_within|set_len)$
  | ::String::(remove|insert|insert_str|drain|split_off|replace_range|truncate|from_utf8_unchecked)$
  | ::VecDeque::<.*>::(insert|swap|split_off|drain|range)$
  | \[T\]>::(rotate_left|rotate_right|swap|swap_with_slice|
             copy_within|chunks|chunks_exact|windows|chunks_mut|rchunks|select_nth_unstable|
             get_unchecked|get_unchecked_mut|first_chunk_unchecked)$
  | str>::(split_at|split_at_mut|get_unchecked)$
  | ::from_utf8_unchecked(_mut)?$ | ::from_u32_unchecked$ | ::from_digit$ | ::to_digit$
  | ::RefCell::<.*>::(borrow|borrow_mut|replace|swap)$
  | Duration::(from_secs_f32|from_secs_f64|mul_f32|mul_f64|div_f32|div_f64|div_duration.*)$
  | (Duration|Instant|SystemTime)\s+as\s+core::ops::.*$
  | ::unreachable_unchecked$ | ::unwrap_unchecked$ | ::assert_unchecked$
  | ^std::process::(exit|abort)$ | ::intrinsics::abort$ | ^std::rt::begin_panic
  | ::Layout::from_size_align_unchecked$
  | ::checked_ilog.*$ | ::ilog(2|10)?$ | ::isqrt$ | ::div_ceil$ | ::next_multiple_of$ | ::abs_diff_unchecked$
  )''', re.X)
SIZED = re.compile(r'::(with_capacity|with_capacity_in|reserve|reserve_exact|from_elem|from_elem_in|resize|'
                   r'resize_with|repeat|repeat_n)$')
DUR = 'core::time::Duration::new'
SMALL = 1 << 16
LEAST = 10      # the longest encoding of an integer
OPENERS = (S + 'next_element', S + 'write_blob_alloc', S + 'write_blob_dynamic')


class Risk:
    """looks at every call of a function whose body is not that of the crate"""

    def __init__(self, ck):
        self.ck = ck
        self.calls = 0
        self.site = '?'
        self.at = None

    def hook(self, c):
        p = c.x['path']
        self.calls += 1
        if p.startswith('fourleaf::') or p.startswith('<fourleaf::'):
            return
        if p == DUR:
            self.ck.ob('duration-in-range', self.site, refuted(c.st.f, c.e.lt(c.args[1], C(10 ** 9, 'u32')), False),
                       'a Duration is built from nanoseconds that may reach a second (it panics when the '
                       'carry overflows)', self.at)
        elif SIZED.search(p) and c.args:
            self.sized(c, p)
        elif PARTIAL.search(p):
            self.ck.fail('no-partial-call', self.site, '%s can panic (or is undefined) for some arguments' % p, self.at)

    def sized(self, c, p):
        """the amount reserved is bounded by something other than the input"""
        n = next((a for a in reversed(c.args) if a.ty == 'usize' or (is_c(a) and isinstance(cv(a), int))), None)
        if n is None:
            return
        f = c.st.f
        if refuted(f, c.e.lt(C(SMALL, 'usize'), n), True):
            okk = True
        else:
            okk = any(not f.feasible([row_gt(n, b)]) for b in self.bounds(c, n) + self.charged(c))
        self.ck.ob('allocation-bounded', self.site, okk, '%s for %s items, a number the input announces'
                   % (p.split('::')[-1], show(n)[:80]), self.at)

    def charged(self, c):
        """amounts the context has accepted against its limits"""
        out, tr = [], c.st.tr
        while tr:
            tr, ev = tr
            if ev.kind == 'ctx' and ev.name in ('collect', 'blob') and ev.x.get('ok'):
                out.append(ev.args[1])
        return out

    def bounds(self, c, n):
        """numbers the caller or the configuration supplies"""
        seen = set()
        stack = [n] + [t for r in c.st.f.rows for t in r[0]] + list(c.st.f.known)
        out = []
        while stack:
            t = stack.pop()
            if not isinstance(t, T) or id(t) in seen:
                continue
            seen.add(id(t))
            if isinstance(t.ty, str) and t.ty in INTS:
                if t.op == 'sym' and str(t.a[0]).startswith('a') and str(t.a[0])[1:2].isdigit():
                    out.append(t)
                elif self.config(c, t):
                    out.append(t)
                elif t.op in ('icast',) and t.a:
                    pass
            stack += [x for x in t.a if isinstance(x, T)]
        return out

    def config(self, c, t):
        """a field of the configuration"""
        x = t
        while x.op in ('proj', 'deref', 'icast') and x.a and isinstance(x.a[0], T):
            b = x.a[0]
            if isinstance(b.ty, int):
                k = c.e.D.tys[b.ty]
                if k['k'] == 'ref':
                    k = c.e.D.tys[k['t']]
                if k['k'] == 'adt' and k['path'] == 'fourleaf::de::Config':
                    return True
            x = b
        return False


class OnlyPanics:
    """a Check that records only what fails because a call does not return"""

    def __init__(self, ck, rule):
        self.__dict__.update(ck=ck, rule=rule, n=0)

    def __getattr__(self, k):
        return getattr(self.ck, k)

    def ob(self, *a, **k):
        self.__dict__['n'] += 1
        return bool(a[2])

    def fail(self, rule, site, detail, at=None):
        if rule.endswith('-total'):
            return self.ck.fail(self.rule, site, detail, at)

    def floor(self, *a):
        return True

    def assume(self, s):
        pass


def run(ck):
    L = Lib(ck)
    D = ck.D
    risk = Risk(ck)
    ck.assume('Stream::set_struct_depth is not used to claim a depth near 2^64; the caller of pad_to_align gives a '
              'power of two, the caller of BufRead::consume consumes no more than was given to it')
    ck.assume('std functions not listed as partial (PARTIAL in sa/checks/c18.py) return for all arguments')
    inv = pending(ck, L)
    settlements_(ck, L, risk, inv)
    done = reading(ck, L, risk, inv)
    ck.floor('functions of the stream layer', done, 105)
    contexts(ck)
    decoding(ck, L, risk)
    ck.floor('calls looked at', risk.calls, 1000)


def kind_of(L, D, r):
    b = D.bodies[str(r['inst'])]
    if not b['argc']:
        return None
    t = D.tys[b['locals'][1]]
    if t['k'] == 'ref' and D.tys[t['t']]['k'] == 'adt':
        pt = D.tys[t['t']]['path']
        return {STREAM: 'stream', BLOB: 'blob'}.get(pt) or ('tracker' if pt in L.R.trackers else None)
    return None


def pending(ck, L):
    """what is known of the stream while a settlement is pending: {function: [(field, least)]}
    (a constant lower bound that every opener of it establishes)"""
    D = ck.D
    u64 = [i for i, f in enumerate(D.tys[L.R.stream_ty]['vs'][0]['f'])
           if D.kt(f[1]) == 'u64' and i not in (L.R.pos, L.R.depth)]
    low = {}
    for p in OPENERS:
        r = L.run(p, 'stream', record=False)
        for o in r.rets():
            s, v = L.slot(r, o.st)
            fn = slot_fn(r.e, v)
            if s != SLOT_SOME or fn is None:
                continue
            have = {i for i in u64 if not o.st.f.feasible([row_gt(C(LEAST, 'u64'), L.field(r, o.st, i))])}
            low[fn] = low.get(fn, have) & have
    return low


def kept(ck, L, ru, inv):
    """an operation that leaves a settlement pending keeps what is known about it"""
    for i in {i for v in inv.values() for i in v}:
        bad = None
        for o in ru.rets():
            a, b = L.field(ru, ru.st0, i), L.field(ru, o.st, i)
            if a is b or L.slot(ru, o.st)[0] == SLOT_NONE:
                continue
            if b.op in ('sym', 'proj', 'deref', 'havoc') and L.slot(ru, o.st)[0] == SLOT_UNKNOWN:
                continue        # left to other operations of the stream (each is checked itself)
            fn = slot_fn(ru.e, L.slot(ru, o.st)[1])
            if fn in inv and i in inv[fn] and o.st.f.feasible([row_gt(C(LEAST, 'u64'), b)]):
                bad = b
            if fn is None:
                bad = b
        ck.ob('pending-kept', ru.name, bad is None, 'the start of the pending blob becomes %s' % (
            show(bad)[:80] if bad is not None else ''), ru.at)


def reading(ck, L, risk, inv):
    D = ck.D
    settling = {x['path'] for x in (root_of_path(D, fn) for fn in inv) if x is not None}
    skip = {str(r['inst']) for r in de_methods(D)} | {str(r['inst']) for r in ser_methods(D)}
    env = StreamEnv(D, L.R)
    n = 0
    for r in D.roots:
        p = r['path']
        if r['derived'] or str(r['inst']) not in D.bodies or str(r['inst']) in skip or 'sa_witness' in p:
            continue
        if D.internal(r):
            continue            # private: analysed where it is called
        if p.startswith(CXP + ':') or r['name'] == 'fmt' or r['name'].startswith('write_'):
            continue
        if any('ParsedDescriptor' in D.s(i) if isinstance(i, int) else False for i in r.get('ins') or ()) and \
                r['name'] == 'from':
            continue            # the encoder of a descriptor: asserts that the tag is valid
        kind = kind_of(L, D, r)
        risk.site, risk.at = short(p), '%s:%s' % (r['file'], r['line'])
        hooks = {'<any>': risk.hook}
        if p in settling:
            continue
        if kind:
            ru = L.run(p, kind, pre=prepare(L, kind, r['name']), hooks=hooks)
            if 'fourleaf::stream::' in p.split(' as ')[0]:      # the fields are private to the module
                kept(ck, L, ru, inv)
        else:
            if r['name'] == 'skip' and p.startswith(F):
                hooks[S + 'skip_up'] = mid_skip
            h = dict(StreamEnv(D, L.R).hooks)
            h.update(hooks)
            ru = analyse(ck, p, h)
        n += 1
        returns(ck, L, ru, kind)
        if r['name'] == 'fill_buf' and kind:
            consumable(ck, L, ru, kind)
    return n


def consumable(ck, L, ru, kind):
    """what is offered can be consumed: the position does not pass its greatest value"""
    e = ru.e
    for o in ru.rets():
        good, v = result_of(e, o)
        if not good:
            continue
        p = L.pos(ru, o.st)
        top = L.field(ru, o.st, L.R.blob_end) if kind == 'blob' else C(MAXU, 'u64')
        try:
            ln = e.length(v)
        except Exception:
            ln = None
        okk = ln is not None and not o.st.f.feasible([row_gt(mk('add', (p, ln), 'i128'), top)])
        ck.ob('offered-consumable', ru.name, okk, 'more bytes are offered than the position can be moved by', ru.at)


def panics(L, ru, kind):
    for o in ru.outs:
        if o.kind != 'ret' and not (o.kind == 'panic' and o.why.startswith('overflow') and kind and
                                    depth_full(L, ru, o)):
            return o        # not only at the greatest depth a stream can count
    return None


def returns(ck, L, ru, kind):
    bad = panics(L, ru, kind)
    ck.ob('never-panics', ru.name, bad is None, bad and '%s: %s' % (bad.kind, bad.why), bad and bad.site)


def hole(m, o):
    """an array is finished whose first `count` slots are not all filled: impossible, as every
    item accepted fills the slot `count` and adds one (C12)"""
    if m.name != 'finish' or not m_accum(m, ARRACC):
        return False
    e, a0, f = m.e, m.args[0], o.st.f
    if variant(e, o.st, a0) != 0:
        return False
    t = m.D.tys[m.self_ty] if isinstance(m.self_ty, int) else None
    n = t.get('n') if t else None
    c0 = e.proj(a0, ('v', 0, 0), 'usize')
    arr = e.proj(a0, ('v', 0, 1))
    for i in range(n if isinstance(n, int) else 32):
        if variant(e, o.st, e.proj(arr, ('i', C(i, 'usize')))) == 0:
            return not f.feasible([row_gt(C(i + 1, 'usize'), c0)])
    return False


def settlements_(ck, L, risk, inv):
    """run when a pending blob is settled; drops from inv what they do not depend on"""
    D = ck.D
    ck.floor('settlement functions', len(inv), 3)
    for fn in sorted(inv, key=str):
        x = root_of_path(D, fn)
        ck.ob('settlement-known', short(str(fn)), x is not None,
              'the settlement function cannot be analysed')
        if x is None:
            continue
        risk.site = short(x['path'])
        plain = L.run(x['path'], 'stream', pre=settle_pre(L, ()), hooks={'<any>': risk.hook})
        if not panics(L, plain, 'stream'):
            inv[fn] = set()
            returns(ck, L, plain, 'stream')
            continue
        ru = None
        for i in sorted(inv[fn]):
            ru = L.run(x['path'], 'stream', pre=settle_pre(L, (i,)))
            if not panics(L, ru, 'stream'):
                inv[fn] = {i}
                break
        else:
            ru = L.run(x['path'], 'stream', pre=settle_pre(L, inv[fn]))
        returns(ck, L, ru, 'stream')


def settle_pre(L, fields):
    def pre(e, st, args, addr, env):
        f = st.f.copy()
        f.rows = f.rows + (lin_sub(lin(env.fld(e, st, addr, L.R.blob_end)), lin(env.pos(e, st, addr))),)
        f.rows = f.rows + tuple(lin_sub(lin(env.fld(e, st, addr, i)), ({}, LEAST)) for i in fields)
        st.f = f
    return pre


def contexts(ck):
    """de::Context: no accounting, nesting or naming panics"""
    px = OnlyPanics(ck, 'never-panics')
    ctxlib.charge_rules(px, 'collect', 'max_collect', 'MaxCollectExceeded', 'collect')
    ctxlib.charge_rules(px, 'blob', 'max_blob', 'MaxBlobExceeded', 'blob')
    ctxlib.push_rules(px)
    ctxlib.push_tag_rules(px)
    ctxlib.display_rules(px)
    ctxlib.unknown_rules(px)
    ck.ob('never-panics', 'de::Context', True)
    ck.floor('obligations visited on contexts', px.n, 100)


def decoding(ck, L, risk):
    D = ck.D
    hl = HL(D)
    inner = hl.hooks['<any>']

    def any_(c):
        risk.hook(c)
        return inner(c)
    hl.hooks['<any>'] = any_
    n = 0
    for r in de_methods(D):
        n += 1
        risk.site, risk.at = site_name(D, r), '%s:%s' % (r['file'], r['line'])
        m = Method(ck, hl, r)
        m.D = D
        bad = next((o for o in m.outs if o.kind != 'ret' and not hole(m, o)), None)
        ck.ob('never-panics', m.site, bad is None, bad and '%s: %s' % (bad.kind, bad.why), bad and bad.site)
    ck.floor('deserialising functions', n, 440)
