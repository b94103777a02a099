"""Trace-partitioned abstract interpreter over the MIR dump.

The program is never executed: values are hash-consed symbolic terms, memory is a
map from abstract locations to terms, conditions are decided by the domains in
facts.py (linear inequalities, GF(2) bit provenance, enumeration tags), loops are
summarised by inferred inductive invariants (or unrolled when a constant bounds
them) and calls are inlined or replaced by the contract of the callee."""
import sys
import json
from terms import *
from facts import Facts, meet_facts

sys.setrecursionlimit(200000)


class Stuck(Exception):
    pass


class Budget(Exception):
    pass


class Dump:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.tys = d['tys']
        self.insts = d['insts']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.impls = d['impls']
        self.crate = d['crate']
        self._cfg = {}
        self.by_path = {}
        for i, x in enumerate(self.insts):
            self.by_path.setdefault(x['path'], []).append(i)
        self.root_by_path = {}
        for r in self.roots:
            self.root_by_path.setdefault(r['path'], r)
        self.adt_discr = {}
        for t in self.tys:
            if t['k'] == 'adt' and t['path'] not in self.adt_discr:
                self.adt_discr[t['path']] = [v['d'] for v in t['vs']]
        self._kt = {}

    def kt(self, tid):
        """term type: int type name or type id"""
        r = self._kt.get(tid)
        if r is None:
            t = self.tys[tid]
            r = t['s'] if t['s'] in INTS else tid
            self._kt[tid] = r
        return r

    def s(self, tid):
        return tid if isinstance(tid, str) else self.tys[tid]['s'] if tid is not None else '?'

    def internal(self, r):
        """a private helper (an inherent one, or a method of a private trait): analysed where it is called,
        for the arguments it is called with"""
        t = r.get('impl_trait')
        if t is None:
            return not (r['vis'] and r['reach'])
        if not t.startswith(self.crate + '::') or r['reach']:
            return False
        if not hasattr(self, '_pubtraits'):
            self._pubtraits = {x['impl_trait'] for x in self.roots if x.get('impl_trait') and x['reach']}
        return t not in self._pubtraits

    def deref_ty(self, ty):
        if isinstance(ty, int):
            t = self.tys[ty]
            if t['k'] in ('ref', 'ptr'):
                return self.kt(t['t'])
        return None

    def proj_ty(self, ty, key):
        if not isinstance(ty, int):
            return None
        t = self.tys[ty]
        k = t['k']
        try:
            if key[0] == 'f':
                if k == 'adt':
                    return self.kt(t['vs'][0]['f'][key[1]][1])
                if k in ('tuple', 'closure'):
                    return self.kt(t['ts'][key[1]])
            elif key[0] == 'v':
                if k == 'adt':
                    return self.kt(t['vs'][key[1]]['f'][key[2]][1])
            elif key[0] == 'i':
                if k in ('array', 'slice'):
                    return self.kt(t['t'])
        except (IndexError, KeyError):
            return None
        return None

    def cfg(self, bid):
        """loops of a body: header -> set of blocks"""
        r = self._cfg.get(bid)
        if r is not None:
            return r
        b = self.bodies[str(bid)] if not isinstance(bid, tuple) else bid[1]
        r = compute_loops(b)
        self._cfg[bid] = r
        return r


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [x[1] for x in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'drop':
        return [term[2]]
    if k == 'assert':
        return [term[4]]
    if k == 'call':
        return [term[4]] if term[4] is not None and term[4] >= 0 else []
    return []


def compute_loops(b):
    n = len(b['bb'])
    suc = [succs(x[1]) for x in b['bb']]
    # reachable order
    order = []
    seen = set()
    stack = [(0, iter(suc[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                stack.append((v, iter(suc[v])))
                break
        else:
            order.append(u)
            stack.pop()
    order.reverse()
    num = {u: i for i, u in enumerate(order)}
    pred = {u: [] for u in order}
    for u in order:
        for v in suc[u]:
            pred[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for u in order:
            if u == 0:
                continue
            new = None
            for p in pred[u]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(u) != new:
                idom[u] = new
                ch = True

    def dom(a, x):
        while True:
            if a == x:
                return True
            if x == 0:
                return False
            x = idom[x]
    loops = {}
    for u in order:
        for v in suc[u]:
            if dom(v, u):
                body = loops.setdefault(v, {v})
                st = [u]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pred[x])
    return loops


class Ev:
    __slots__ = ('kind', 'name', 'args', 'ret', 'site', 'mem', 'f', 'x', 'inst')

    def __init__(self, kind, name, args=(), ret=None, site=None, mem=None, f=None, x=None, inst=None):
        self.kind = kind
        self.name = name
        self.args = args
        self.ret = ret
        self.site = site
        self.mem = mem
        self.f = f
        self.x = x
        self.inst = inst

    def __repr__(self):
        return '%s %s(%s) -> %s' % (self.kind, self.name, ', '.join(show(a) for a in self.args),
                                    show(self.ret) if self.ret is not None else None)


class St:
    __slots__ = ('mem', 'f', 'tr')

    def __init__(self, mem, f, tr):
        self.mem = mem
        self.f = f
        self.tr = tr

    def fork(self, f=None):
        return St(dict(self.mem), f if f is not None else self.f, self.tr)


class Out:
    __slots__ = ('kind', 'st', 'val', 'why', 'site')

    def __init__(self, kind, st, val=None, why=None, site=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.why = why
        self.site = site

    def events(self):
        return trace_list(self.st.tr)


def trace_list(tr):
    r = []
    while tr is not None:
        r.append(tr[1])
        tr = tr[0]
    r.reverse()
    return r


class Frame:
    __slots__ = ('id', 'inst', 'body', 'loops', 'depth', 'key', 'path', 'lty', 'stack')


UNIT = mk('agg', ('tuple', 0))


def agg(kind, variant, *fs):
    return mk('agg', (kind, variant) + tuple(fs))


def some(x):
    return agg('core::option::Option', 1, x)


NONE = agg('core::option::Option', 0)


def ok(x):
    return agg('core::result::Result', 0, x)


def err(x):
    return agg('core::result::Result', 1, x)


def tup(*xs):
    return agg('tuple', 0, *xs)


_projtab = {}


def width(t):
    """the bits that may be set"""
    b = bits(t)
    n = len(b)
    while n and b[n - 1] == 0:
        n -= 1
    return n


def narrowed(x, y):
    """the type through which x is y, cut down and widened again"""
    w = x
    while w.op == 'icast':
        w = w.a[0]
    if w.op != 'bcast' or w.ty not in INTS or y.ty not in INTS or 'char' in (w.ty, y.ty):
        return None
    n = INTS[w.ty][1]
    if n >= INTS[y.ty][1]:
        return None
    p, q = bits(w), bits(y)
    return w.ty if p is not None and q is not None and p == q[:n] else None


class Engine:
    def __init__(self, dump, hooks=None, inline_filter=None):
        import models
        self.D = dump
        self.hooks = hooks or {}
        self.models = models.MODELS
        self.inline_filter = inline_filter
        self.max_depth = 60
        self.max_rec = 6
        self.unroll_cap = 70
        self.steps = 0
        self.max_steps = 3000000
        self.nframe = 0
        self.stuck = []
        self.nroot = 0
        self.stats = {'blocks': 0, 'calls': 0, 'loops': 0, 'paths': 0}
        self.analysed = set()
        self.loop_modes = {}

    # ------------------------------------------------------------- values
    def proj(self, v, key, ty=None):
        op = v.op
        if op == 'agg':
            if key[0] == 'f':
                i = key[1] + 2
                if i < len(v.a):
                    return v.a[i]
            elif key[0] == 'v':
                if key[1] == v.a[1] and key[2] + 2 < len(v.a):
                    return v.a[key[2] + 2]
                return mk('sym', ('dead', 0), ty)
            elif key[0] == 'i' and is_c(key[1]):
                i = key[1].a[0] + 2
                if i < len(v.a):
                    return v.a[i]
        elif op == 'repeat':
            if key[0] == 'i':
                return v.a[0]
        elif op == 'upd':
            base, ov = v.a
            for k, x in reversed(ov):
                if k == key:
                    return x
                if k[0] == 'i' and key[0] == 'i':
                    if is_c(k[1]) and is_c(key[1]):
                        continue
                    return mk('proj', (v, key), ty)
            return self.proj(base, key, ty)
        elif op == 'bytes' and key[0] == 'i' and is_c(key[1]) and key[1].a[0] < len(v.a[0]):
            return C(v.a[0][key[1].a[0]], 'u8')
        elif op == 'zst':
            return mk('zst', (), None)
        if ty is None:
            ty = self.D.proj_ty(v.ty, key)
        k = (v, key)
        t = _projtab.get(k)
        if t is None:
            t = mk('proj', k, ty)
            _projtab[k] = t
        elif t.ty is None and ty is not None:
            t2 = mk('proj', k, ty)
            _projtab[k] = t2
            t = t2
        return t

    def update(self, v, path, new):
        if not path:
            return new
        key = path[0]
        if len(path) > 1:
            sub = self.update(self.proj(v, key), path[1:], new)
        else:
            sub = new
        if v.op == 'agg' or v.op == 'repeat':
            if v.op == 'agg':
                if key[0] == 'f':
                    i = key[1] + 2
                elif key[0] == 'v':
                    i = key[2] + 2 if key[1] == v.a[1] else None
                elif key[0] == 'i' and is_c(key[1]):
                    i = key[1].a[0] + 2
                else:
                    i = None
                if i is not None and i < len(v.a):
                    return mk('agg', v.a[:i] + (sub,) + v.a[i + 1:], v.ty)
        if v.op == 'upd':
            base, ov = v.a
            if key[0] in ('f', 'v') or (key[0] == 'i' and is_c(key[1]) and
                                        all(k[0] == 'i' and is_c(k[1]) for k, _ in ov)):
                ov = tuple((k, x) for k, x in ov if k != key)
            return mk('upd', (base, ov + ((key, sub),)), v.ty)
        if v.op in ('sym', 'proj', 'deref') and self.proj(v, key) is sub:
            return v
        return mk('upd', (v, ((key, sub),)), v.ty)

    def load(self, st, root, path, ty=None):
        v = st.mem.get(root)
        if v is None:
            v = self.initial(root, ty if not path else None)
        for i, k in enumerate(path):
            v = self.proj(v, k, ty if i == len(path) - 1 else None)
        if v.ty is None and ty in INTS and v.op == 'proj':
            v = mk(v.op, v.a, ty)
        return v

    def initial(self, root, ty=None):
        if root[0] == 'h':
            p = root[1]
            if p.op == 'refc':
                return p.a[0]
            t = self.D.deref_ty(p.ty)
            return mk('deref', (p,), t if t is not None else ty)
        if root[0] == 'l':
            return UNINIT
        if root[0] == 'g':
            return mk('sym', (root[1] + '0', 0), 'i128')
        return UNINIT

    def store(self, st, root, path, val):
        if not path:
            st.mem[root] = val
            return
        v = st.mem.get(root)
        if v is None:
            v = self.initial(root)
        st.mem[root] = self.update(v, path, val)

    def addr_of(self, p):
        """(root, path) of the pointee of a pointer value"""
        if p.op == 'ref':
            return p.a[0]
        if p.op == 'slice':
            return p.a[0]
        return (('h', p), ())

    def mkref(self, root, path, ty=None):
        if not path and root[0] == 'h':
            return root[1]
        return mk('ref', ((root, path),), ty)

    def deref(self, st, p, ty=None):
        root, path = self.addr_of(p)
        return self.load(st, root, path, ty)

    def length(self, v):
        """length of a slice-like fat pointer"""
        if v.op == 'slice':
            return v.a[2]
        if v.op == 'str':
            return C(len(v.a[0].encode()), 'usize')
        if v.op == 'bytes':
            return C(len(v.a[0]), 'usize')
        if v.op == 'vslice':
            return self.veclen(v.a[0])
        return mk('len', (v,), 'usize')

    def veclen(self, v):
        if v.op == 'vnil':
            return C(0, 'usize')
        if v.op == 'vpush':
            return self.add(self.veclen(v.a[0]), C(1, 'usize'), 'usize')
        if v.op == 'vcat':
            return self.add(self.veclen(v.a[0]), v.a[1], 'usize')
        return mk('len', (v,), 'usize')

    def subslice(self, v, off, ln, ty=None):
        """v[off .. off+ln]"""
        if v.op == 'slice':
            if ln is v.a[2] and is_c(off) and cv(off) == 0:
                return v
            return mk('slice', (v.a[0], self.add(v.a[1], off, 'usize'), ln))
        if is_c(off) and cv(off) == 0 and ln is self.length(v):
            return v
        return mk('slice', ((('h', v), ()), off, ln))

    def slice_elem_addr(self, v, idx):
        if v.op == 'slice':
            root, path = v.a[0]
            return (root, path + (('i', self.add(v.a[1], idx, 'usize')),))
        return (('h', v), (('i', idx),))

    # ------------------------------------------------------------- arithmetic
    def add(self, a, b, ty):
        return self.canon(mk('add', (a, b), ty), ty)

    def sub(self, a, b, ty):
        return self.canon(mk('sub', (a, b), ty), ty)

    def canon(self, t, ty):
        l = lin(t)
        r = lin_to_term(l, ty)
        return r

    def eq(self, a, b):
        if a is b:
            return TRUE
        if is_c(a) and is_c(b):
            return TRUE if a.a[0] == b.a[0] else FALSE
        if a.ty == 'bool' or b.ty == 'bool':
            if is_c(a):
                a, b = b, a
            if is_c(b):
                return a if b.a[0] else self.not_(a)
        if a.ty in INTS and b.ty in INTS:
            d, k = lin_sub(lin(a), lin(b))
            if not d:
                return TRUE if k == 0 else FALSE
            for x, y in ((a, b), (b, a)):
                t = narrowed(x, y)
                if t is not None:
                    return self.not_(mk('notin', (y, t), 'bool'))
        if a.id > b.id:
            a, b = b, a
        return mk('eq', (a, b), 'bool')

    def lt(self, a, b):
        if a is b:
            return FALSE
        if is_c(a) and is_c(b):
            return TRUE if a.a[0] < b.a[0] else FALSE
        if a.ty == 'bool' and b.ty == 'bool':
            return mk('lt', (a, b), 'bool')
        if is_c(b) and b.ty in INTS:
            w = a
            while w.op == 'icast':
                w = w.a[0]
            if w.op == 'lz':        # fewer than k leading zeros: one of the top k bits is set
                n, k = INTS[w.a[0].ty][1], cv(b)
                if k > n:
                    return TRUE
                return FALSE if k <= 0 else self.not_(self.lt(w.a[0], C(1 << (n - k), w.a[0].ty)))
        # unsigned: 0 < x  <=>  x != 0 ; x < 1 <=> x == 0
        if a.ty in INTS and not INTS[a.ty][0]:
            if is_c(a) and cv(a) == 0:
                return self.not_(self.eq(b, a))
            if is_c(a) and cv(a) < ty_range(a.ty)[1]:
                return self.not_(self.lt(b, C(cv(a) + 1, a.ty)))
            if is_c(b) and cv(b) == 1:
                return self.eq(a, C(0, a.ty))
            if is_c(b) and cv(b) == 0:
                return FALSE
        return mk('lt', (a, b), 'bool')

    def le(self, a, b):
        return self.not_(self.lt(b, a))

    def not_(self, a):
        if is_c(a):
            return FALSE if a.a[0] else TRUE
        if a.op == 'not':
            return a.a[0]
        return mk('not', (a,), 'bool')

    def cast_int(self, f, v, ty):
        src = v.ty
        if v.op == 'c':
            return C(wrap(v.a[0], ty), ty)
        if src == ty:
            return v
        if src == 'bool':
            d = f.decide(v)
            if d is not None:
                return C(1 if d else 0, ty)
            return mk('b2i', (v,), ty)
        if src not in INTS:
            return mk('bcast', (v,), ty)
        s0, n0 = INTS[src]
        s1, n1 = INTS[ty]
        if src == 'char':
            if n1 >= 32:
                return mk('icast', (v,), ty)
        # undo a cast chain
        if v.op in ('icast', 'bcast'):
            inner = v.a[0]
            if inner.ty == ty and n0 >= n1:
                return inner
            if inner.ty in INTS and n1 <= n0 and inner.ty != 'bool':
                # only low bits matter
                return self.cast_int(f, inner, ty)
        lo0, hi0 = ty_range(src)
        lo1, hi1 = ty_range(ty)
        if (lo1 <= lo0 and hi0 <= hi1) or f.in_range(v, ty):
            return self.canon(mk('icast', (v,), ty), ty) if v.op in ('add', 'sub', 'mul', 'neg') \
                else mk('icast', (v,), ty)
        return mk('bcast', (v,), ty)

    def arith(self, f, op, a, b, ty):
        """exact or wrapping plain arithmetic"""
        if is_c(a) and is_c(b):
            x, y = a.a[0], b.a[0]
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            return C(wrap(r, ty), ty)
        t = mk(op, (a, b), ty)
        if f.in_range(t, ty):
            return self.canon(t, ty)
        return mk('w' + op, (a, b), ty)

    def bitop(self, f, op, a, b, ty):
        if is_c(a) and is_c(b):
            x, y = a.a[0], b.a[0]
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            return C(wrap(r, ty), ty)
        if is_c(a):
            a, b = b, a
        if is_c(b):
            y = b.a[0]
            if op in ('or', 'xor') and y == 0:
                return a
            if op == 'and' and y == 0:
                return b
        if a is b and op in ('and', 'or'):
            return a
        if a.id > b.id and not is_c(b):
            a, b = b, a
        t = mk(op, (a, b), ty)
        # fully determined?
        bs = f.rbits(t)
        if bs is not None and all(x in (0, 1) for x in bs):
            v = sum(x << i for i, x in enumerate(bs))
            return C(wrap(v, ty), ty)
        return t

    def shift(self, f, op, a, b, ty):
        if is_c(b):
            k = b.a[0]
            s, n = INTS[ty]
            k &= n - 1
            if is_c(a):
                return C(wrap(a.a[0] << k if op == 'shl' else a.a[0] >> k, ty), ty)
            if k == 0:
                return a
            t = mk(op, (a, C(k, 'u32')), ty)
            bs = f.rbits(t)
            if bs is not None and all(x in (0, 1) for x in bs):
                v = sum(x << i for i, x in enumerate(bs))
                return C(wrap(v, ty), ty)
            return t
        return mk(op, (a, b), ty)

    # ------------------------------------------------------------- enums
    def discr(self, v, ty):
        w = v
        while w.op == 'upd':
            w = w.a[0]
        if w.op == 'agg':
            ds = self.D.adt_discr.get(w.a[0])
            d = ds[w.a[1]] if ds else w.a[1]
            return C(d, ty if ty in INTS else 'isize')
        return mk('discr', (w,), None)

    def universe(self, t):
        """possible discriminants of the enum behind a discr term"""
        if t.op != 'discr':
            return None
        ty = t.a[0].ty
        if isinstance(ty, int):
            x = self.D.tys[ty]
            if x['k'] == 'adt' and x['enum']:
                return [v['d'] for v in x['vs']]
        return None

    def variant_index(self, ty, d):
        x = self.D.tys[ty]
        for i, v in enumerate(x['vs']):
            if v['d'] == d:
                return i
        return None

    def is_variant(self, st, v, variant):
        """is the enum value known to be the given variant (index)?"""
        t = self.discr(v, 'isize')
        w = v
        while w.op == 'upd':
            w = w.a[0]
        if w.op == 'agg':
            return w.a[1] == variant
        want = variant
        if isinstance(w.ty, int) and self.D.tys[w.ty]['k'] == 'adt':
            want = self.D.tys[w.ty]['vs'][variant]['d']
        k = st.f.known.get(t)
        if k is not None:
            return k == want
        e = st.f.excl.get(t)
        if e and want in e:
            return False
        return None

    # ------------------------------------------------------------- places
    def place(self, fr, st, p):
        """-> (root, path, type, slice) ; slice is the fat pointer when the place
        is an unsized slice"""
        root = ('l', fr.id, p[0])
        path = ()
        ty = fr.lty[p[0]]
        var = None
        sl = None
        D = self.D
        for e in p[1]:
            k = e[0]
            if k == '*':
                pv = self.load(st, root, path, ty)
                if sl is not None:
                    raise Stuck('deref of slice place')
                if pv is UNINIT:
                    raise Stuck('deref of uninitialised pointer')
                nty = D.deref_ty(ty)
                if nty is None and isinstance(ty, int) and D.tys[ty]['k'] == 'adt':
                    # Box
                    a = D.tys[ty]['args']
                    nty = D.kt(a[0]) if a else None
                    if pv.op == 'box':
                        root, path = ('h', pv), ()
                        ty = nty
                        continue
                if pv.op in ('slice', 'vslice'):
                    sl = pv
                    if pv.op == 'slice':
                        root, path = pv.a[0]
                    else:
                        root, path = ('h', pv), ()
                elif isinstance(nty, int) and D.tys[nty]['k'] in ('slice', 'str'):
                    sl = pv
                    root, path = ('h', pv), ()
                else:
                    root, path = self.addr_of(pv)
                ty = nty
                var = None
            elif k == 'f':
                key = ('v', var, e[1]) if var is not None else ('f', e[1])
                path = path + (key,)
                ty = D.kt(e[2])
                var = None
            elif k == 'd':
                var = e[1]
                t = D.tys[ty] if isinstance(ty, int) else None
                if t is not None and t['k'] == 'adt' and not t['enum']:
                    var = None
            elif k in ('i', 'c'):
                if k == 'i':
                    idx = self.load(st, ('l', fr.id, e[1]), (), 'usize')
                else:
                    if e[3]:
                        n = self.length(sl) if sl is not None else C(D.tys[ty]['n'] or 0, 'usize')
                        idx = self.arith(st.f, 'sub', n, C(e[1], 'usize'), 'usize')
                    else:
                        idx = C(e[1], 'usize')
                nty = D.proj_ty(ty, ('i', idx))
                if sl is not None:
                    root, path = self.slice_elem_addr(sl, idx)
                    sl = None
                else:
                    path = path + (('i', idx),)
                ty = nty
            elif k == 's':
                if sl is None:
                    raise Stuck('subslice of array')
                n = self.length(sl)
                frm = C(e[1], 'usize')
                if e[3]:
                    end = self.arith(st.f, 'sub', n, C(e[2], 'usize'), 'usize')
                else:
                    end = C(e[2], 'usize')
                sl = self.subslice(sl, frm, self.arith(st.f, 'sub', end, frm, 'usize'))
            else:
                raise Stuck('place projection %s' % k)
        return root, path, ty, sl

    def operand(self, fr, st, o):
        k = o['o']
        D = self.D
        if k in ('copy', 'move'):
            root, path, ty, sl = self.place(fr, st, o['p'])
            return self.load(st, root, path, ty)
        if k == 'int':
            t = D.kt(o['t'])
            if t in INTS:
                return C(o['v'], t)
            x = D.tys[o['t']]
            if x['k'] == 'adt':
                if x['enum']:
                    vi = self.variant_index(o['t'], o['v'])
                    if vi is not None:
                        return agg(x['path'], vi)
                elif len(x['vs'][0]['f']) == 1:
                    ft = D.kt(x['vs'][0]['f'][0][1])
                    if ft in INTS:
                        return agg(x['path'], 0, C(o['v'], ft))
            return mk('cint', (o['v'],), o['t'])
        if k == 'zst':
            t = D.tys[o['t']]
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt' and not t['enum']:
                return agg(t['path'], 0, *[mk('zst', (), D.kt(x[1])) for x in t['vs'][0]['f']])
            return mk('zst', (), o['t'])
        if k in ('fn', 'fnptr'):
            return mk('fn', (o['inst'], D.insts[o['inst']]['path']))
        if k == 'str':
            return mk('str', (o['v'],), o['t'])
        if k == 'bytes':
            return mk('refc', (mk('bytes', (tuple(o['b']),)),), o['t'])
        if k == 'refint':
            it = D.deref_ty(D.kt(o['t']))
            return mk('refc', (C(wrap(o['v'], it), it),), o['t'])
        if k in ('promoted', 'constbody'):
            v = self.eval_const_body(o['body'])
            if v is not None:
                return v
            return mk('opaquec', (k, id(o)), o['t'])
        if k == 'constitem':
            return mk('constitem', (o['path'], tuple(str(a) for a in o['args'])), D.kt(o['t']))
        return mk('opaquec', (o.get('s', k),), D.kt(o['t']))

    def eval_const_body(self, body):
        key = id(body)
        c = getattr(self, '_cb', None)
        if c is None:
            c = self._cb = {}
        if key in c:
            return c[key]
        st = St({}, Facts(), None)
        fr = self.frame(None, body, 0, ())
        v = None
        try:
            outs = self.run_frame(fr, st)
            if len(outs) == 1 and outs[0].kind == 'ret':
                v = outs[0].val
                v = self.freeze(outs[0].st, v, 0)
        except Stuck:
            v = None
        c[key] = v
        return v

    def freeze(self, st, v, d):
        """turn references to constant frame locals into refs to constants"""
        if d > 6:
            return v
        if v.op == 'ref':
            x = self.load(st, v.a[0][0], v.a[0][1])
            return mk('refc', (self.freeze(st, x, d + 1),), v.ty)
        if v.op == 'agg':
            return mk('agg', v.a[:2] + tuple(self.freeze(st, x, d + 1) for x in v.a[2:]), v.ty)
        if v.op == 'slice' and v.a[0][0][0] == 'l':
            x = self.load(st, v.a[0][0], v.a[0][1])
            x = self.freeze(st, x, d + 1)
            return mk('slice', ((('h', mk('refc', (x,), None)), ()), v.a[1], v.a[2]), v.ty)
        return v

    # ------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty):
        """-> list of (state, value)"""
        k = r['r']
        D = self.D
        if k == 'use':
            return [(st, self.operand(fr, st, r['a']))]
        if k in ('ref', 'rawptr'):
            root, path, ty, sl = self.place(fr, st, r['p'])
            if sl is not None:
                return [(st, sl)]
            return [(st, self.mkref(root, path, dty))]
        if k == 'discr':
            root, path, ty, sl = self.place(fr, st, r['p'])
            v = self.load(st, root, path, ty)
            t = self.discr(v, dty)
            if t.op == 'discr' and t in st.f.known:
                t = C(st.f.known[t], dty)
            return [(st, t)]
        if k == 'cast':
            v = self.operand(fr, st, r['a'])
            ck = r['k']
            t = D.kt(r['t'])
            if ck == 'IntToInt':
                if v.op == 'discr':
                    res = []
                    uni = self.universe(v)
                    if uni is None:
                        return [(st, mk('bcast', (v,), t))]
                    for u in uni:
                        f = st.f.assume_disc(v, u)
                        if f is not None:
                            res.append((st.fork(f), C(wrap(u, t), t)))
                    return res
                return [(st, self.cast_int(st.f, v, t))]
            if ck.startswith('PointerCoercion(Unsize'):
                # &[T;N] -> &[T]
                at = self.operand_ty(fr, r['a'])
                it = D.deref_ty(at) if at is not None else None
                if isinstance(it, int) and D.tys[it]['k'] == 'array':
                    n = D.tys[it].get('n')
                    if n is not None:
                        root, path = self.addr_of(v)
                        return [(st, mk('slice', ((root, path), C(0, 'usize'), C(n, 'usize'))))]
                return [(st, v)]
            if ck.startswith('PointerCoercion(Reify') or ck.startswith('PointerCoercion(Closure'):
                return [(st, v)]
            if ck in ('PtrToPtr', 'BoxDerefTransmute') or ck.startswith('PointerCoercion'):
                return [(st, v)]
            if ck == 'Transmute':
                if v.ty in INTS and t in INTS:
                    if INTS[v.ty][1] == INTS[t][1]:
                        return [(st, self.cast_int(st.f, v, t))]
                return [(st, mk('transmute', (v,), t))]
            return [(st, mk('cast', (ck, v), t))]
        if k == 'bin':
            a = self.operand(fr, st, r['a'])
            b = self.operand(fr, st, r['b'])
            return self.binop(st, r['op'], a, b, dty)
        if k == 'un':
            a = self.operand(fr, st, r['a'])
            op = r['op']
            if op == 'Not':
                if a.ty == 'bool':
                    return [(st, self.not_(a))]
                if is_c(a):
                    return [(st, C(wrap(~a.a[0], a.ty), a.ty))]
                return [(st, mk('not', (a,), a.ty))]
            if op == 'Neg':
                if is_c(a):
                    return [(st, C(wrap(-a.a[0], a.ty), a.ty))]
                t = mk('neg', (a,), a.ty)
                if st.f.in_range(t, a.ty):
                    return [(st, self.canon(t, a.ty))]
                return [(st, mk('wneg', (a,), a.ty))]
            if op == 'PtrMetadata':
                return [(st, self.length(a))]
            return [(st, mk('un', (op, a), dty))]
        if k == 'agg':
            fs = [self.operand(fr, st, x) for x in r['fs']]
            ak = r['k']
            if ak == 'adt':
                t = D.tys[r['t']]
                v = r.get('v') or 0
                return [(st, agg(t['path'], v, *fs))]
            if ak == 'tuple':
                return [(st, tup(*fs))]
            if ak == 'array':
                return [(st, agg('array', 0, *fs))]
            if ak == 'closure':
                return [(st, agg('closure', 0, *fs))]
            if ak == 'rawptr':
                return [(st, mk('rawfat', tuple(fs), dty))]
            return [(st, mk('aggx', (ak,) + tuple(fs), dty))]
        if k == 'repeat':
            v = self.operand(fr, st, r['a'])
            n = r.get('n')
            if isinstance(n, int) and n <= 64:
                return [(st, agg('array', 0, *([v] * n)))]
            return [(st, mk('repeat', (v, n), dty))]
        raise Stuck('rvalue ' + k)

    def operand_ty(self, fr, o):
        if o['o'] in ('copy', 'move'):
            ty = fr.lty[o['p'][0]]
            var = None
            for e in o['p'][1]:
                if e[0] == '*':
                    ty = self.D.deref_ty(ty)
                elif e[0] == 'f':
                    ty = self.D.kt(e[2])
                elif e[0] == 'd':
                    pass
                else:
                    ty = self.D.proj_ty(ty, ('i', None))
            return ty
        return self.D.kt(o['t'])

    def binop(self, st, op, a, b, dty):
        if op.endswith('WithOverflow'):
            ty = a.ty
            o = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul'}[op[:-12]]
            return self.overflowing(st, o, a, b, ty)
        if op in ('Eq', 'Ne'):
            t = self.cmp_eq(a, b)
            return [(st, t if op == 'Eq' else self.not_(t))]
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if op == 'Lt':
                t = self.lt(a, b)
            elif op == 'Gt':
                t = self.lt(b, a)
            elif op == 'Le':
                t = self.not_(self.lt(b, a))
            else:
                t = self.not_(self.lt(a, b))
            return [(st, t)]
        if op == 'Cmp':
            return self.three_way(st, a, b)
        ty = a.ty
        if op in ('Add', 'Sub', 'Mul'):
            return [(st, self.arith(st.f, op.lower(), a, b, ty))]
        if op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return [(st, self.canon(mk(op[:-9].lower(), (a, b), ty), ty))]
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if ty == 'bool':
                return self.boolop(st, op, a, b)
            return [(st, self.bitop(st.f, {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op], a, b, ty))]
        if op in ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked'):
            return [(st, self.shift(st.f, op[:3].lower(), a, b, ty))]
        if op in ('Div', 'Rem'):
            o = op.lower()
            if is_c(a) and is_c(b) and b.a[0] != 0:
                x, y = a.a[0], b.a[0]
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return [(st, C(wrap(q if o == 'div' else x - q * y, ty), ty))]
            if o == 'div' and is_c(b) and b.a[0] == 1:
                return [(st, a)]
            return [(st, mk(o, (a, b), ty))]
        return [(st, mk('bin', (op, a, b), dty))]

    def cmp_eq(self, a, b):
        if a.op == 'discr' and is_c(b) or b.op == 'discr' and is_c(a):
            if is_c(a):
                a, b = b, a
            return mk('deq', (a, b.a[0]), 'bool')
        if a.op == 'discr' or b.op == 'discr':
            return mk('eq', (a, b) if a.id < b.id else (b, a), 'bool')
        return self.eq(a, b)

    def boolop(self, st, op, a, b):
        res = []
        for s, va in self.branch(st, a):
            if op == 'BitAnd':
                res.append((s, b if va else FALSE))
            elif op == 'BitOr':
                res.append((s, TRUE if va else b))
            else:
                res.append((s, self.not_(b) if va else b))
        return res

    def three_way(self, st, a, b):
        res = []
        for s, v in self.branch(st, self.lt(a, b)):
            if v:
                res.append((s, agg('core::cmp::Ordering', 0)))
            else:
                for s2, v2 in self.branch(s, self.eq(a, b)):
                    res.append((s2, agg('core::cmp::Ordering', 1 if v2 else 2)))
        return res

    def overflowing(self, st, o, a, b, ty):
        t = mk(o, (a, b), ty)
        if is_c(a) and is_c(b):
            x, y = a.a[0], b.a[0]
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
            w = wrap(r, ty)
            return [(st, tup(C(w, ty), C(0 if w == r else 1, 'bool')))]
        if o == 'mul' and not (is_c(a) or is_c(b)):
            # non linear: both outcomes possible
            s2 = st.fork()
            return [(st, tup(mk('mulx', (a, b), ty), FALSE)), (s2, tup(mk('wmul', (a, b), ty), TRUE))]
        c = mk('notin', (t, ty), 'bool')
        res = []
        for s, v in self.branch(st, c):
            if v:
                res.append((s, tup(mk('w' + o, (a, b), ty), TRUE)))
            else:
                res.append((s, tup(self.canon(t, ty), FALSE)))
        return res

    def sides(self, f, c):
        """not in the range of a type: below it, or above it"""
        if c.op != 'notin':
            return [f]
        t, ty = c.a
        lo, hi = ty_range(ty)
        slo, shi = ty_range(t.ty) if t.ty in INTS else (lo - 1, hi + 1)
        if lo < slo or hi > shi or (lo, hi) == (slo, shi):
            return [f]
        r = [f.assume(self.lt(t, C(lo, t.ty)), True), f.assume(self.lt(C(hi, t.ty), t), True)]
        return [h for h in r if h is not None]

    def branch(self, st, c):
        """fork on a bool term -> list of (state, truth)"""
        if c.op == 'deq':
            t, v = c.a
            res = []
            f = st.f.assume_disc(t, v)
            g = st.f.exclude_disc(t, [v], self.universe(t))
            if f is not None:
                res.append((st if g is None else st.fork(f), True))
                if g is None:
                    st.f = f
            if g is not None:
                res.append((st.fork(g), False))
            return res
        if c.op == 'not' and c.ty == 'bool':
            return [(s, not v) for s, v in self.branch(st, c.a[0])]
        if c.op in ('ite',):
            pass
        d = st.f.decide(c)
        if d is not None:
            return [(st, d)]
        f = st.f.assume(c, True)
        g = st.f.assume(c, False)
        res = []
        if f is not None and g is not None:
            res = [(st.fork(h), True) for h in self.sides(f, c)] + [(st.fork(g), False)]
        elif f is not None:
            st.f = f
            res = [(st, True)]
        elif g is not None:
            st.f = g
            res = [(st, False)]
        return res

    # ------------------------------------------------------------- execution
    def frame(self, inst, body, depth, stack):
        fr = Frame()
        self.nframe += 1
        fr.id = self.nframe
        fr.inst = inst
        fr.body = body
        fr.depth = depth
        fr.stack = stack
        fr.lty = [self.D.kt(t) for t in body['locals']]
        key = ('i', inst) if inst is not None else ('b', id(body))
        fr.key = key
        lp = self.D._cfg.get(key)
        if lp is None:
            lp = compute_loops(body)
            self.D._cfg[key] = lp
        fr.loops = lp
        fr.path = self.D.insts[inst]['path'] if inst is not None else '<const>'
        return fr

    def call_inst(self, inst, args, st, depth=0, stack=()):
        """execute the body of an instance"""
        body = self.D.bodies[str(inst)]
        fr = self.frame(inst, body, depth, stack + (inst,))
        self.analysed.add(inst)
        args = list(args)
        x = self.D.insts[inst]
        argc = body['argc']
        if len(args) != argc:
            # rust-call ABI: untuple the last argument
            if len(args) == 2 and args[1].op == 'agg' and args[1].a[0] == 'tuple':
                args = [args[0]] + list(args[1].a[2:])
            elif len(args) == 2 and argc >= 1:
                t = args[1]
                args = [args[0]] + [self.proj(t, ('f', i), self.D.kt(body['locals'][i + 2]))
                                    for i in range(argc - 1)]
        if len(args) != argc:
            raise Stuck('arity of %s' % x['path'])
        st.mem = dict(st.mem)
        for i, a in enumerate(args):
            st.mem[('l', fr.id, i + 1)] = a
        outs = self.run_frame(fr, st)
        for o in outs:
            m = o.st.mem
            dead = [k for k in m if k[0] == 'l' and k[1] == fr.id]
            for k in dead:
                del m[k]
        return outs

    def run_frame(self, fr, st):
        outs = []
        backs, exits = self.region(fr, 0, st, None, None, outs)
        assert not backs and not exits
        return outs

    def region(self, fr, bb, st, loop, header, outs):
        """run from bb until leaving `loop` or coming back to `header`"""
        backs = []
        exits = []
        work = [(bb, st)]
        first = True
        while work:
            bb, st = work.pop()
            if header is not None and bb == header and not first:
                backs.append(st)
                continue
            if loop is not None and bb not in loop:
                exits.append((bb, st))
                continue
            if bb in fr.loops and not (first and bb == header):
                ex = self.do_loop(fr, bb, st, outs)
                work.extend(reversed(ex))
                first = False
                continue
            first = False
            nxt = self.block(fr, bb, st, outs)
            work.extend(reversed(nxt))
        return backs, exits

    def block(self, fr, bb, st, outs):
        self.steps += 1
        self.stats['blocks'] += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        stmts, term, cleanup = fr.body['bb'][bb]
        cur = [st]
        for s in stmts:
            if s[0] == '=':
                new = []
                for x in cur:
                    root, path, ty, sl = self.place(fr, x, s[1])
                    for x2, v in self.rvalue(fr, x, s[2], ty):
                        if x2 is not x:
                            pass
                        self.store(x2, root, path, v)
                        new.append(x2)
                cur = new
            elif s[0] == 'dead':
                for x in cur:
                    x.mem.pop(('l', fr.id, s[1]), None)
            elif s[0] == 'sd':
                for x in cur:
                    root, path, ty, sl = self.place(fr, x, s[1])
                    v = self.load(x, root, path, ty)
                    nf = 0
                    if isinstance(ty, int) and self.D.tys[ty]['k'] == 'adt':
                        t = self.D.tys[ty]
                        nf = len(t['vs'][s[2]]['f'])
                        self.store(x, root, path, agg(t['path'], s[2], *[self.proj(v, ('v', s[2], i)) for i in range(nf)]))
        res = []
        for x in cur:
            res.extend(self.term(fr, bb, x, term, outs))
        return res

    def term(self, fr, bb, st, t, outs):
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'return':
            v = st.mem.get(('l', fr.id, 0), UNINIT)
            if v is UNINIT and self.D.s(fr.lty[0]) == '()':
                v = UNIT
            outs.append(Out('ret', st, v))
            return []
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            return self.switch(st, v, t[2], t[3])
        if k == 'unreachable':
            outs.append(Out('unreachable', st, None, 'unreachable', (fr.path, bb)))
            return []
        if k == 'resume':
            return []
        if k == 'drop':
            return self.drop(fr, st, t, outs)
        if k == 'assert':
            c = self.operand(fr, st, t[1])
            res = []
            for s, v in self.branch(st, c):
                if v == bool(t[2]):
                    res.append((t[4], s))
                else:
                    outs.append(Out('panic', s, None, t[3], (fr.path, t[5] if len(t) > 5 else None)))
            return res
        if k == 'call':
            return self.do_call(fr, bb, st, t, outs)
        raise Stuck('terminator ' + k)

    def drop(self, fr, st, t, outs):
        return [(t[2], st)]

    def switch(self, st, v, targets, otherwise):
        if v.ty == 'bool' or v.op in ('not', 'eq', 'lt', 'deq'):
            d0 = None
            for val, bb in targets:
                if val == 0:
                    d0 = bb
            d1 = otherwise
            for val, bb in targets:
                if val == 1:
                    d1 = bb
            if d0 is None:
                d0 = otherwise
            return [(d1 if tr else d0, s) for s, tr in self.branch(st, v)]
        if v.op == 'c':
            for val, bb in targets:
                if val == v.a[0]:
                    return [(bb, st)]
            # values are dumped unsigned
            if v.a[0] < 0:
                n = INTS[v.ty][1]
                for val, bb in targets:
                    if val == v.a[0] + (1 << n):
                        return [(bb, st)]
            return [(otherwise, st)] if otherwise is not None else []
        res = []
        if v.op == 'discr':
            uni = self.universe(v)
            vals = []
            for val, bb in targets:
                vals.append(val)
                if uni is not None and val not in uni:
                    continue
                f = st.f.assume_disc(v, val)
                if f is not None:
                    res.append((bb, st.fork(f)))
            if otherwise is not None:
                f = st.f.exclude_disc(v, vals, uni)
                if f is not None:
                    if f is not st.f or True:
                        res.append((otherwise, st.fork(f)))
            return res
        # plain integer
        cur = st
        for val, bb in targets:
            if v.ty in INTS:
                c = self.eq(v, C(wrap(val, v.ty), v.ty))
            else:
                c = mk('eq', (v, C(val, 'u64')), 'bool')
            nxt = None
            for s, tr in self.branch(cur, c):
                if tr:
                    res.append((bb, s))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None and otherwise is not None:
            res.append((otherwise, cur))
        return res

    def do_call(self, fr, bb, st, t, outs):
        _, fop, argops, dest, target, site = t[:6]
        args = [self.operand(fr, st, a) for a in argops]
        if fop['o'] == 'fn':
            fv = None
            inst = fop['inst']
        else:
            fv = self.operand(fr, st, fop)
            inst = fv.a[0] if fv.op == 'fn' else None
        rty = None
        droot, dpath, dty, _ = self.place(fr, st, dest)
        res = []
        for a, o in zip(args, argops):
            pass
        argtys = [self.operand_ty(fr, a) for a in argops]
        for o in self.call(inst, fv, args, st, fr.depth + 1, fr.stack, (fr.path, site), dty, argtys):
            if o.kind == 'ret':
                if target is None or target < 0:
                    outs.append(Out('unreachable', o.st, None, 'diverging call returned', (fr.path, site)))
                    continue
                self.store(o.st, droot, dpath, o.val)
                res.append((target, o.st))
            else:
                outs.append(o)
        return res

    def hook_for(self, x, table):
        for k in ('path', 'decl', 'trait_item'):
            n = x.get(k)
            if n is not None:
                h = table.get(n)
                if h is not None:
                    return h
        return None

    def call(self, inst, fv, args, st, depth, stack, site, rty, argtys=None):
        self.stats['calls'] += 1
        c = CallCtx(self, inst, fv, args, st, depth, stack, site, rty, argtys)
        if inst is None:
            h = self.hooks.get('<fnptr>')
            if h is not None:
                r = h(c)
                if r is not None:
                    return r
            return c.opaque('fnptr', '<fnptr>')
        x = self.D.insts[inst]
        h = self.hook_for(x, self.hooks)
        if h is not None:
            r = h(c)
            if r is not None:
                return r
        h = self.hooks.get('<any>')
        if h is not None:
            r = h(c)
            if r is not None:
                return r
        h = self.hook_for(x, self.models)
        if h is not None:
            r = h(c)
            if r is not None:
                return r
        if x['kind'] == 'ctor':
            ap = self.D.tys[x['adt']]['path']
            return [Out('ret', st, agg(ap, x['variant'], *args))]
        if str(inst) in self.D.bodies and (self.inline_filter is None or self.inline_filter(x)):
            if stack.count(inst) >= self.max_rec or depth > self.max_depth:
                return [Out('stuck', st, None, 'recursion limit at ' + x['path'], site)]
            return self.call_inst(inst, self.untuple(inst, args, argtys), st, depth, stack)
        return c.opaque('call', x['path'])

    def untuple(self, inst, args, argtys):
        """the rust-call ABI passes the arguments of a closure as one tuple"""
        if len(args) != 2 or not argtys or '{closure' not in self.D.insts[inst]['path'].split('::')[-1]:
            return args
        b = self.D.bodies[str(inst)]
        if b['argc'] != 2 or not isinstance(argtys[1], int):
            return args
        t = self.D.tys[argtys[1]]
        if t['k'] != 'tuple' or len(t['ts']) != 1 or self.D.kt(b['locals'][2]) == argtys[1]:
            return args
        return [args[0], self.proj(args[1], ('f', 0), self.D.kt(b['locals'][2]))]

    # ------------------------------------------------------------- loops
    def live_roots(self, fr, mem):
        return mem.keys()

    def diff(self, a, b, path, out):
        """leaf paths where b differs from a"""
        if a is b:
            return
        if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            kind = a.a[0]
            for i in range(2, len(a.a)):
                if kind == 'array':
                    key = ('i', C(i - 2, 'usize'))
                elif kind in ('tuple', 'closure') or self.D.adt_discr.get(kind) is None or \
                        len(self.D.adt_discr[kind]) <= 1:
                    key = ('f', i - 2)
                else:
                    key = ('v', a.a[1], i - 2)
                self.diff(a.a[i], b.a[i], path + (key,), out)
            return
        ua = a.a if a.op == 'upd' else (a, ())
        ub = b.a if b.op == 'upd' else (b, ())
        if (a.op == 'upd' or b.op == 'upd') and ua[0] is ub[0]:
            keys = []
            for k, _ in ua[1] + ub[1]:
                if k not in keys:
                    keys.append(k)
            if all(k[0] in ('f', 'v') or (k[0] == 'i' and is_c(k[1])) for k in keys):
                for k in keys:
                    self.diff(self.proj(a, k), self.proj(b, k), path + (k,), out)
                return
        if b.op == 'upd' and ub[0] is a:
            pass
        out.append(path)

    def changed(self, m0, m1):
        res = []
        for r in set(m0) | set(m1):
            a = m0.get(r)
            b = m1.get(r)
            if a is None:
                a = self.initial(r)
            if b is None:
                b = self.initial(r)
            if a is b:
                continue
            if a is UNINIT or b is UNINIT:
                res.append((r, None))     # scratch
                continue
            out = []
            self.diff(a, b, (), out)
            for p in out:
                res.append((r, p))
        return res

    def do_loop(self, fr, h, st, outs):
        """-> list of (exit block, state)"""
        self.stats['loops'] += 1
        body = fr.loops[h]
        r = self.try_unroll(fr, h, body, st)
        if r is not None:
            exits, o = r
            outs.extend(o)
            self.loop_modes[(fr.path, h)] = 'unrolled'
            return exits
        self.loop_modes[(fr.path, h)] = 'invariant'
        return self.havoc_loop(fr, h, body, st, outs)

    def try_unroll(self, fr, h, body, st0):
        exits = []
        outs = []
        states = [st0.fork()]
        n = 0
        cap = self.unroll_cap
        while states:
            backs = []
            took = set()
            for s in states:
                b, e = self.region(fr, h, s, body, h, outs)
                backs.extend(b)
                exits.extend(e)
            if not backs:
                return exits, outs
            n += 1
            # progress: some scalar of the loop frame moved from one constant to another
            if n == 1:
                if not any(self.const_progress(fr, st0.mem, b.mem) for b in backs):
                    return None
                all_exit_bbs = set()
                for u in body:
                    for v in succs(fr.body['bb'][u][1]):
                        if v not in body:
                            all_exit_bbs.add((u, v))
                if len(backs) > 6:
                    return None
            backs = self.merge_states(backs)
            if len(backs) > 40:
                return None
            if n > cap:
                # allow longer unrolling only for thin loops
                if len(backs) > 2 or n > 600:
                    return None
            states = backs
        return exits, outs

    def const_progress(self, fr, m0, m1):
        for r, p in self.changed(m0, m1):
            if p is None:
                continue
            a = self.get_path(m0, r, p)
            b = self.get_path(m1, r, p)
            if is_c(a) and is_c(b) and a.ty in INTS and a.ty != 'bool':
                return True
            if a.op == 'slice' and b.op == 'slice' and is_c(a.a[2]) and is_c(b.a[2]):
                return True
            if a.ty == b.ty and a.ty in INTS and not INTS[a.ty][0] and b.op == 'shr' and width(b) < width(a):
                return True         # shifted out: at most as many times as it has bits
        return False

    def get_path(self, m, r, p):
        v = m.get(r)
        if v is None:
            v = self.initial(r)
        for k in p:
            v = self.proj(v, k)
        return v

    def merge_states(self, sts):
        """merge partitions with the same trace whose memories agree once the facts
        of the more specific one are applied"""
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merge2(o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def same_trace(self, a, b):
        while a is not b:
            if a is None or b is None:
                return False
            x, y = a[1], b[1]
            if x.kind != y.kind or x.name != y.name or x.args != y.args or x.ret is not y.ret:
                return False
            a, b = a[0], b[0]
        return True

    def merge2(self, a, b):
        if not self.same_trace(a.tr, b.tr):
            return None
        pick = None     # which side is the more general
        for r in set(a.mem) | set(b.mem):
            x = a.mem.get(r)
            y = b.mem.get(r)
            if x is y:
                continue
            if x is None:
                x = self.initial(r)
            if y is None:
                y = self.initial(r)
            if x is UNINIT or y is UNINIT:
                continue
            ds = []
            self.diff(x, y, (), ds)
            for p in ds:
                u = self.get_path(a.mem, r, p)
                v = self.get_path(b.mem, r, p)
                if u.ty in INTS and v.ty == u.ty:
                    if a.f.same_bits(u, v) or a.f.entails_eq(u, v):
                        side = 'b'       # under a's facts b's value is right too
                    elif b.f.same_bits(u, v) or b.f.entails_eq(u, v):
                        side = 'a'
                    else:
                        return None
                    if pick is None:
                        pick = side
                    elif pick != side:
                        return None
                else:
                    return None
        g = a if pick in (None, 'a') else b
        m = dict(g.mem)
        for r in list(m):
            if r not in a.mem or r not in b.mem:
                x = a.mem.get(r, self.initial(r))
                y = b.mem.get(r, self.initial(r))
                if x is UNINIT or y is UNINIT:
                    del m[r]
        return St(m, meet_facts(a.f, b.f), g.tr)

    def havoc_value(self, name, v0, ty):
        if v0.op == 'slice':
            return mk('slice', (v0.a[0], fresh(name + '.off', 'usize'), fresh(name + '.len', 'usize')))
        if ty is None:
            ty = v0.ty
        return fresh(name, ty)

    def havoc_loop(self, fr, h, body, st0, outs):
        D = self.D
        H = []          # list of (root, path) to havoc
        Hs = set()
        scratch = set()

        def norm():
            # remove cells covered by a coarser one
            keep = []
            for r, p in H:
                if any(r2 == r and p2 != p and p[:len(p2)] == p2 for r2, p2 in H):
                    continue
                keep.append((r, p))
            return keep
        trloop = object()
        # 1. which cells does an arbitrary iteration modify?
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12:
                raise Stuck('loop did not stabilise in ' + fr.path)
            cells = norm()
            st, syms = self.havoc_state(fr, st0, cells, scratch)
            base = dict(st.mem)
            o2 = []
            backs, exits = self.region(fr, h, st, body, h, o2)
            new = False
            for b in backs:
                for r, p in self.changed(base, b.mem):
                    if p is None:
                        if r not in scratch:
                            scratch.add(r)
                            new = True
                        continue
                    if any(r == r2 and p[:len(p2)] == p2 for r2, p2 in cells):
                        continue
                    if (r, p) not in Hs:
                        Hs.add((r, p))
                        H.append((r, p))
                        new = True
            if not new:
                break
        cells = norm()
        # 2. candidate invariants over the havocked integer cells
        cand = None
        while True:
            st, syms = self.havoc_state(fr, st0, cells, scratch)
            if cand is None:
                cand = self.candidates(st0, syms)
            f = st.f
            good = True
            for c in cand:
                f = self.assume_inv(f, c, syms)
                if f is None:
                    f = st.f
                    good = False
                    break
            st.f = f
            base_syms = syms
            o2 = []
            tr0 = st.tr
            mark = Ev('mark', 'loop-head', (), None, (fr.path, h), dict(st.mem), st.f)
            st.tr = (st.tr, mark)
            inmem = dict(st.mem)
            inf = st.f
            backs, exits = self.region(fr, h, st, body, h, o2)
            failed = []
            for c in cand:
                for b in backs:
                    if not self.holds_inv(b, c, syms):
                        failed.append(c)
                        break
            if not failed:
                break
            cand = [c for c in cand if c not in failed]
        # 3. trace node
        segs = []
        for b in backs:
            segs.append((self.segment(b.tr, mark), b))
        node = Ev('loop', 'loop', (), None, (fr.path, h), inmem, inf, {
            'segs': segs, 'cells': cells, 'inv': cand, 'entry': st0, 'syms': syms})

        def fix(tr):
            return self.replace_mark(tr, mark, node)
        for o in o2:
            o.st.tr = fix(o.st.tr)
            outs.append(o)
        res = []
        for bb, s in exits:
            s.tr = fix(s.tr)
            res.append((bb, s))
        return res

    def segment(self, tr, mark):
        r = []
        while tr is not None and tr[1] is not mark:
            r.append(tr[1])
            tr = tr[0]
        r.reverse()
        return r

    def replace_mark(self, tr, mark, node):
        seg = []
        while tr is not None and tr[1] is not mark:
            seg.append(tr[1])
            tr = tr[0]
        if tr is None:
            raise Stuck('lost loop mark')
        tr = (tr[0], node)
        for e in reversed(seg):
            tr = (tr, e)
        return tr

    def havoc_state(self, fr, st0, cells, scratch):
        st = st0.fork()
        syms = []
        for r in scratch:
            st.mem.pop(r, None)
            if r[0] not in ('l',):
                st.mem[r] = fresh('scratch', None)
        for r, p in cells:
            if r in scratch:
                continue
            v0 = self.get_path(st0.mem, r, p)
            ty = v0.ty
            if ty is None or v0.op == 'agg':
                ty = self.cell_type(fr, st0, r, p)
            nm = 'it'
            nv = self.havoc_value(nm, v0, ty)
            self.store(st, r, p, nv)
            if nv.op == 'slice':
                syms.append((r, p, 'off', v0.a[1], nv.a[1]))
                syms.append((r, p, 'len', v0.a[2], nv.a[2]))
            else:
                syms.append((r, p, None, v0, nv))
        return st, syms

    def cell_type(self, fr, st, r, p):
        ty = None
        if r[0] == 'l' and r[1] == fr.id:
            ty = fr.lty[r[2]]
        elif r[0] == 'h':
            ty = self.D.deref_ty(r[1].ty)
        elif r[0] == 'g':
            return 'i128'
        for k in p:
            if ty is None:
                return None
            ty = self.D.proj_ty(ty, k)
        return ty

    def candidates(self, st0, syms):
        cand = []
        ints = []
        for s in syms:
            r, p, part, v0, nv = s
            if nv.ty in INTS and nv.ty != 'bool' and v0.ty in INTS:
                cand.append(('ge', (r, p, part)))
                cand.append(('le', (r, p, part)))
                ints.append(s)
            elif nv.ty == 'bool' and is_c(v0):
                cand.append(('const', (r, p, part)))
            elif isinstance(nv.ty, int) and self.D.tys[nv.ty]['k'] == 'adt' and self.D.tys[nv.ty]['enum']:
                cand.append(('disc', (r, p, part)))
        for i in range(len(ints)):
            for j in range(i):
                a, b = ints[i], ints[j]
                cand.append(('dsame', a[:3], b[:3]))
                cand.append(('dopp', a[:3], b[:3]))
        # relations X <= Y among int cells and loop-constant terms appearing in facts
        for i in range(len(ints)):
            for j in range(len(ints)):
                if i != j:
                    a, b = ints[i], ints[j]
                    if st0.f.entails_le(a[3], b[3]):
                        cand.append(('lecell', a[:3], b[:3]))
        for s in ints:
            for t in self.bound_terms(st0, s[3]):
                cand.append(('lebound', s[:3], t))
        return cand

    def bound_terms(self, st0, v0):
        """loop-constant terms t with v0 <= t at entry, worth trying as bounds"""
        ts = set()
        for d, c in st0.f.rows:
            for x in d:
                if x.ty in INTS:
                    ts.add(x)
        for m in st0.mem.values():
            if m.op in ('sym', 'proj') and m.ty in ('u64', 'usize', 'i64'):
                ts.add(m)
            if m.op == 'slice':
                ts.add(m.a[2])
            # the parts of a range over a computed count
            ts |= {x for x in (m.a if m.op == 'agg' else (m,)) if isinstance(x, T) and
                   x.op in ('and', 'pure') and x.ty in ('u64', 'usize', 'i64')}
        res = []
        for t in sorted(ts, key=lambda t: t.id)[:16]:
            if t is not v0 and not is_c(t) and st0.f.entails_le(v0, t):
                res.append(t)
        return res

    def find_sym(self, syms, key):
        for s in syms:
            if s[:3] == key:
                return s
        return None

    def inv_rows(self, c, get):
        """rows (>=0) expressing the invariant; get(key)-> (initial, current)"""
        k = c[0]
        if k in ('ge', 'le'):
            v0, v = get(c[1])
            l = lin_sub(lin(v), lin(v0))
            if k == 'le':
                l = ({x: -w for x, w in l[0].items()}, -l[1])
            return [l]
        if k in ('dsame', 'dopp'):
            a0, a = get(c[1])
            b0, b = get(c[2])
            la = lin_sub(lin(a), lin(a0))
            lb = lin_sub(lin(b), lin(b0))
            if k == 'dopp':
                lb = ({x: -w for x, w in lb[0].items()}, -lb[1])
            l = lin_sub(la, lb)
            n = ({x: -w for x, w in l[0].items()}, -l[1])
            return [l, n]
        if k == 'lecell':
            a0, a = get(c[1])
            b0, b = get(c[2])
            return [lin_sub(lin(b), lin(a))]
        if k == 'lebound':
            a0, a = get(c[1])
            return [lin_sub(lin(c[2]), lin(a))]
        return None

    def assume_inv(self, f, c, syms):
        def get(key):
            s = self.find_sym(syms, key)
            return s[3], s[4]
        if c[0] == 'const':
            v0, v = get(c[1])
            return f.assume(v, bool(v0.a[0]))
        if c[0] == 'disc':
            v0, v = get(c[1])
            t0 = self.discr(v0, 'isize')
            t = self.discr(v, 'isize')
            if t0.op == 'c':
                return f.assume_disc(t, t0.a[0])
            k = f.known.get(t0)
            if k is not None:
                return f.assume_disc(t, k)
            return f
        rows = self.inv_rows(c, get)
        g = f.copy()
        g.rows = g.rows + tuple(rows)
        return g

    def holds_inv(self, b, c, syms):
        def cur(key):
            v = self.get_path(b.mem, key[0], key[1])
            if key[2] is not None:
                if v.op != 'slice':
                    return None
                v = v.a[1] if key[2] == 'off' else v.a[2]
            return v

        def get(key):
            s = self.find_sym(syms, key)
            v = cur(key)
            if v is None or v.ty not in INTS:
                raise KeyError
            return s[3], v
        try:
            if c[0] == 'const':
                s = self.find_sym(syms, c[1])
                v = cur(c[1])
                d = b.f.decide(v)
                return d is not None and d == bool(s[3].a[0])
            if c[0] == 'disc':
                s = self.find_sym(syms, c[1])
                t0 = self.discr(s[3], 'isize')
                want = t0.a[0] if t0.op == 'c' else b.f.known.get(t0)
                if want is None:
                    return True
                t = self.discr(cur(c[1]), 'isize')
                have = t.a[0] if t.op == 'c' else b.f.known.get(t)
                return have == want
            return all(b.f.ge0(r) for r in self.inv_rows(c, get))
        except KeyError:
            return False


class CallCtx:
    """one call site activation handed to hooks and models"""

    def __init__(self, e, inst, fv, args, st, depth, stack, site, rty, argtys):
        self.e = e
        self.inst = inst
        self.fv = fv
        self.args = args
        self.st = st
        self.depth = depth
        self.stack = stack
        self.site = site
        self.rty = rty
        self.argtys = argtys

    @property
    def x(self):
        return self.e.D.insts[self.inst] if self.inst is not None else None

    def ret(self, v, st=None):
        return [Out('ret', st or self.st, v)]

    def panic(self, why, st=None):
        return [Out('panic', st or self.st, None, why, self.site)]

    def fresh(self, name, ty=None):
        return fresh(name, self.rty if ty is None else ty)

    def ev(self, kind, name, args=None, ret=None, st=None, x=None):
        st = st or self.st
        e = Ev(kind, name, tuple(self.args if args is None else args), ret, self.site,
               dict(st.mem), st.f, x, self.inst)
        st.tr = (st.tr, e)
        return e

    def inline(self, st=None):
        return self.e.call_inst(self.inst, self.args, st or self.st, self.depth, self.stack)

    def havoc_arg(self, i, st=None):
        st = st or self.st
        self.havoc_value(st, self.args[i], self.argtys[i] if self.argtys else None)

    def havoc_value(self, st, v, ty, depth=0):
        e = self.e
        D = e.D
        if depth > 4:
            return
        if isinstance(ty, int):
            t = D.tys[ty]
            if t['k'] == 'ref':
                if not t.get('mut'):
                    return
                inner = D.kt(t['t'])
                if v.op == 'slice':
                    root, path = v.a[0]
                    e.store(st, root, path, fresh('havoc', None))
                    return
                root, path = e.addr_of(v)
                old = e.load(st, root, path, inner)
                self.havoc_value(st, old, inner, depth + 1)
                e.store(st, root, path, fresh('havoc', inner))
                return
            if v.op == 'agg' or t['k'] in ('adt', 'tuple', 'closure'):
                if t['k'] == 'adt':
                    if v.op == 'agg' and v.a[1] < len(t['vs']):
                        for i, (n, ft) in enumerate(t['vs'][v.a[1]]['f']):
                            if i + 2 < len(v.a):
                                self.havoc_value(st, v.a[i + 2], D.kt(ft), depth + 1)
                    elif not t['enum']:
                        for i, (n, ft) in enumerate(t['vs'][0]['f'] if t['vs'] else []):
                            k = D.tys[ft]['k']
                            if k in ('ref', 'adt'):
                                self.havoc_value(st, e.proj(v, ('f', i), D.kt(ft)), D.kt(ft), depth + 1)
                    else:
                        for vi, var in enumerate(t['vs']):
                            for i, (n, ft) in enumerate(var['f']):
                                tt = D.tys[ft]
                                if tt['k'] == 'ref' and tt.get('mut'):
                                    self.havoc_value(st, e.proj(v, ('v', vi, i), D.kt(ft)), D.kt(ft), depth + 1)
                elif v.op == 'agg':
                    for i, ft in enumerate(t.get('ts', [])):
                        if i + 2 < len(v.a):
                            self.havoc_value(st, v.a[i + 2], D.kt(ft), depth + 1)

    def opaque(self, kind, name, pure=False):
        r = fresh(name.split('::')[-1], self.rty)
        self.ev(kind, name, ret=r)
        if not pure:
            for i in range(len(self.args)):
                self.havoc_arg(i)
        if self.rty is not None and self.e.D.s(self.rty) == '()':
            r = UNIT
        return self.ret(r)
