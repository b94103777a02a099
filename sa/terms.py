"""Hash-consed abstract values (value numbers) and the two numeric domains used
to interpret them: linear inequalities (Fourier-Motzkin over the integers with
gcd tightening) and GF(2)-affine bit provenance."""
from math import gcd


class T:
    __slots__ = ('op', 'a', 'ty', 'id', '_lin', '_bits')

    def __repr__(self):
        return show(self)


_tab = {}
_next = [0]


def mk(op, a=(), ty=None):
    k = (op, a, ty)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = ty
        t.id = _next[0]
        t._lin = None
        t._bits = None
        _next[0] += 1
        _tab[k] = t
    return t


_fresh = [0]


def fresh(name, ty):
    _fresh[0] += 1
    return mk('sym', (name, _fresh[0]), ty)


UNINIT = mk('uninit')

# --- integer types -------------------------------------------------------
INTS = {}
for _b in (8, 16, 32, 64, 128):
    INTS['u%d' % _b] = (False, _b)
    INTS['i%d' % _b] = (True, _b)
INTS['usize'] = (False, 64)
INTS['isize'] = (True, 64)
INTS['bool'] = (False, 1)
INTS['char'] = (False, 32)


def ty_range(ty):
    s, b = INTS[ty]
    if ty == 'char':
        return (0, 0x10FFFF)
    if s:
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    return (0, (1 << b) - 1)


def is_int(ty):
    return ty in INTS


def C(v, ty):
    return mk('c', (int(v),), ty)


TRUE = C(1, 'bool')
FALSE = C(0, 'bool')


def is_c(t):
    return t.op == 'c'


def cv(t):
    return t.a[0]


def wrap(v, ty):
    s, b = INTS[ty]
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


# --- linear forms ---------------------------------------------------------
def lin(t):
    """exact linear form: (dict term->coef, const)"""
    r = t._lin
    if r is not None:
        return r
    op = t.op
    if op == 'c':
        r = ({}, t.a[0])
    elif op == 'add' or op == 'sub':
        s = 1 if op == 'add' else -1
        d, c = lin(t.a[0])
        e, f = lin(t.a[1])
        d = dict(d)
        for k, v in e.items():
            n = d.get(k, 0) + s * v
            if n:
                d[k] = n
            else:
                d.pop(k, None)
        r = (d, c + s * f)
    elif op == 'mul':
        x, y = t.a
        if is_c(x):
            x, y = y, x
        if is_c(y):
            d, c = lin(x)
            m = y.a[0]
            r = ({k: v * m for k, v in d.items()} if m else {}, c * m)
        else:
            r = ({t: 1}, 0)
    elif op == 'neg':
        d, c = lin(t.a[0])
        r = ({k: -v for k, v in d.items()}, -c)
    elif op == 'icast':
        r = lin(t.a[0])
    else:
        r = ({t: 1}, 0)
    t._lin = r
    return r


def lin_sub(a, b):
    d = dict(a[0])
    for k, v in b[0].items():
        n = d.get(k, 0) - v
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return (d, a[1] - b[1])


def lin_add(a, b):
    return lin_sub(a, lin_sub(({}, 0), b))


def lin_to_term(l, ty):
    """rebuild a canonical term from a linear form"""
    d, c = l
    if not d:
        return C(c, ty)
    pos = sorted([k for k, v in d.items() if v > 0], key=lambda k: k.id)
    neg = sorted([k for k, v in d.items() if v < 0], key=lambda k: k.id)
    acc = None
    for k in pos:
        v = d[k]
        x = k if v == 1 else mk('mul', (k, C(v, ty)), ty)
        acc = x if acc is None else mk('add', (acc, x), ty)
    if acc is None:
        acc = C(c, ty)
        c = 0
    elif c > 0:
        acc = mk('add', (acc, C(c, ty)), ty)
        c = 0
    for k in neg:
        v = -d[k]
        x = k if v == 1 else mk('mul', (k, C(v, ty)), ty)
        acc = mk('sub', (acc, x), ty)
    if c < 0:
        acc = mk('sub', (acc, C(-c, ty)), ty)
    return acc


def atom_range(t):
    """state independent range of a lin atom"""
    if t.ty is None or t.ty not in INTS:
        return (None, None)
    lo, hi = ty_range(t.ty)
    op = t.op
    if op == 'and' and lo == 0:
        for x in t.a:
            if is_c(x):
                hi = min(hi, x.a[0])
    elif op == 'shr' and lo == 0 and is_c(t.a[1]):
        hi = min(hi, hi >> t.a[1].a[0])
        x = t.a[0]
        l2, h2 = atom_range(x) if x.op not in ('add', 'sub', 'mul') else (None, None)
        if h2 is not None:
            hi = min(hi, h2 >> t.a[1].a[0])
    elif op == 'rem' and is_c(t.a[1]) and t.a[1].a[0] > 0:
        m = t.a[1].a[0]
        if lo == 0:
            hi = min(hi, m - 1)
        else:
            lo, hi = max(lo, -(m - 1)), min(hi, m - 1)
    elif op == 'div' and lo == 0 and is_c(t.a[1]) and t.a[1].a[0] > 0:
        x = t.a[0]
        h2 = atom_range(x)[1] if x.op not in ('add', 'sub', 'mul') else hi
        if h2 is not None:
            hi = min(hi, h2 // t.a[1].a[0])
    elif op == 'len':
        lo, hi = 0, (1 << 63) - 1
    elif op in ('b2i',):
        lo, hi = 0, 1
    return (lo, hi)


def norm_row(d, c):
    """sum d + c >= 0, integer tightened; returns (tuple rows, c)"""
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g  # floor: sum >= -c  -> sum/g >= ceil(-c/g)
    return d, c


class Blowup(Exception):
    pass


def infeasible(rows, limit=4000):
    """rows: list of (dict, const): each sum+const>=0.  True if no integer
    solution can exist (sound, incomplete)."""
    cur = {}        # key -> (dict, const)
    pos = {}        # var -> set of keys with a positive coefficient
    neg = {}

    def push(d, c):
        d, c = norm_row(d, c)
        if not d:
            return c < 0
        if len(d) == 1:
            for x, v in d.items():
                k = ((x.id, v),)
        else:
            k = tuple(sorted([(x.id, v) for x, v in d.items()]))
        old = cur.get(k)
        if old is not None:
            if old[1] > c:
                cur[k] = (d, c)
            return False
        cur[k] = (d, c)
        for x, v in d.items():
            t = pos if v > 0 else neg
            s = t.get(x)
            if s is None:
                t[x] = {k}
            else:
                s.add(k)
        return False

    def drop(k):
        d, c = cur.pop(k)
        for x, v in d.items():
            (pos if v > 0 else neg)[x].discard(k)
        return d, c

    for d, c in rows:
        if push(d, c):
            return True
    # equalities first: a row and its opposite determine one of their variables
    work = list(cur)
    while work:
        k = work.pop()
        if k not in cur:
            continue
        d, c = cur[k]
        o = cur.get(tuple((i, -v) for i, v in k))
        if o is None or o[1] != -c:
            continue
        x = next((y for y, v in d.items() if v == 1 or v == -1), None)
        if x is None:
            continue
        a = d[x]
        drop(k)
        drop(tuple((i, -v) for i, v in k))
        for t in (pos, neg):
            for k2 in list(t.get(x, ())):
                d2, c2 = drop(k2)
                m = -d2[x] * a          # a*a == 1
                r = dict(d2)
                for y, v in d.items():
                    r[y] = r.get(y, 0) + m * v
                r = {y: v for y, v in r.items() if v}
                c3 = c2 + m * c
                if not r:
                    if c3 < 0:
                        return True
                    continue
                if push(r, c3):
                    return True
                d3, c3 = norm_row(r, c3)
                work.append(tuple(sorted([(y.id, v) for y, v in d3.items()])))
    live = sorted(set(pos) | set(neg), key=lambda x: x.id)
    steps = 0
    empty = ()
    while cur:
        bestx = None
        bc = None
        gone = set()
        for x in live:
            p = len(pos.get(x, empty))
            n = len(neg.get(x, empty))
            if not p and not n:
                gone.add(x)
                continue
            cost = p * n - p - n
            if bc is None or cost < bc:
                bc = cost
                bestx = x
                if not p or not n:
                    break
        x = bestx
        if x is None:
            return False
        gone.add(x)
        live = [y for y in live if y not in gone]
        P = []
        N = []
        for k in sorted(pos.get(x, empty)):
            d, c = drop(k)
            P.append((d, c, d[x]))
        for k in sorted(neg.get(x, empty)):
            d, c = drop(k)
            N.append((d, c, -d[x]))
        for d1, c1, v1 in P:
            for d2, c2, v2 in N:
                steps += 1
                if steps > limit:
                    return False
                g = gcd(v1, v2)
                m1 = v2 // g
                m2 = v1 // g
                d = {}
                for y, w in d1.items():
                    if y is not x:
                        d[y] = w * m1
                for y, w in d2.items():
                    if y is not x:
                        n = d.get(y, 0) + w * m2
                        if n:
                            d[y] = n
                        else:
                            d.pop(y, None)
                if push(d, c1 * m1 + c2 * m2):
                    return True
    return False


# --- bit provenance --------------------------------------------------------
_bitvar = {}      # (term, i) -> index
_bitvar_rev = []


def bitvar(t, i):
    k = (t, i)
    v = _bitvar.get(k)
    if v is None:
        v = len(_bitvar_rev) + 1   # bit 0 of a mask is the constant
        _bitvar[k] = v
        _bitvar_rev.append(k)
    return 1 << v


def widen(t, n):
    """bits of t sign- or zero-extended to n"""
    b = bits(t)
    if len(b) >= n:
        return b
    return b + [b[-1] if INTS[t.ty][0] else 0] * (n - len(b))


def bits(t):
    """list of masks (GF(2) affine forms), lsb first; None if not an int"""
    r = t._bits
    if r is not None:
        return r
    if t.ty not in INTS:
        return None
    s, n = INTS[t.ty]
    op = t.op
    r = None
    if op == 'c':
        v = t.a[0] & ((1 << n) - 1)
        r = [(v >> i) & 1 for i in range(n)]
    elif op in ('and', 'or', 'xor'):
        x = bits(t.a[0])
        y = bits(t.a[1])
        r = []
        for i in range(n):
            p, q_ = x[i], y[i]
            if op == 'xor':
                r.append(p ^ q_)
            elif op == 'and':
                if p == 0 or q_ == 0:
                    r.append(0)
                elif p == 1:
                    r.append(q_)
                elif q_ == 1 or p == q_:
                    r.append(p)
                elif p == q_ ^ 1:
                    r.append(0)
                else:
                    r.append(bitvar(mk('band', (min(p, q_), max(p, q_))), 0))
            else:
                if p == 1 or q_ == 1:
                    r.append(1)
                elif p == 0:
                    r.append(q_)
                elif q_ == 0 or p == q_:
                    r.append(p)
                elif p == q_ ^ 1:
                    r.append(1)
                else:
                    # a|b = a ^ b ^ ab
                    r.append(p ^ q_ ^ bitvar(mk('band', (min(p, q_), max(p, q_))), 0))
    elif op == 'not':
        r = [b ^ 1 for b in bits(t.a[0])]
    elif op in ('shl', 'shr') and is_c(t.a[1]):
        x = bits(t.a[0])
        k = t.a[1].a[0]
        if op == 'shl':
            r = ([0] * k + x)[:n]
        else:
            fill = x[n - 1] if s else 0
            r = (x[k:] + [fill] * k)[:n]
    elif op in ('icast', 'bcast'):
        x = bits(t.a[0])
        s0, n0 = INTS[t.a[0].ty]
        if n <= n0:
            r = x[:n]
        else:
            fill = x[n0 - 1] if s0 else 0
            r = x + [fill] * (n - n0)
    elif op == 'b2i':
        b = bits(t.a[0])
        r = [b[0]] + [0] * (n - 1)
    elif op == 'mul' and (is_c(t.a[0]) or is_c(t.a[1])):
        x, y = t.a
        if is_c(x):
            x, y = y, x
        m = y.a[0]
        if m > 0 and m & (m - 1) == 0:
            k = m.bit_length() - 1
            r = ([0] * k + widen(x, n))[:n]
    elif op == 'div' and not s and is_c(t.a[1]):
        m = t.a[1].a[0]
        if m > 0 and m & (m - 1) == 0:
            k = m.bit_length() - 1
            r = (bits(t.a[0])[k:] + [0] * k)[:n]
    elif op == 'rem' and not s and is_c(t.a[1]):
        m = t.a[1].a[0]
        if m > 0 and m & (m - 1) == 0:
            k = m.bit_length() - 1
            r = bits(t.a[0])[:k] + [0] * (n - k)
    elif op in ('add', 'wadd') and len(t.a) == 2:
        x = widen(t.a[0], n)
        y = widen(t.a[1], n)
        if all(p == 0 or q_ == 0 for p, q_ in zip(x, y)):
            r = [p | q_ for p, q_ in zip(x, y)]
    elif op in ('sub', 'wsub') and is_c(t.a[0]) and t.a[0].a[0] == 0:
        # 0 - b where b is 0/1: all bits equal b
        y = bits(t.a[1])
        if all(b == 0 for b in y[1:]):
            r = [y[0]] * n
    elif op in ('neg', 'wneg'):
        y = bits(t.a[0])
        if all(b == 0 for b in y[1:]):
            r = [y[0]] * n
    elif op == 'ite':
        # ite(bool, c1, c2)
        b = bits(t.a[0])
        x = bits(t.a[1])
        y = bits(t.a[2])
        if b is not None and x is not None and y is not None:
            r = []
            for p, q_ in zip(x, y):
                if p == q_:
                    r.append(p)
                elif p in (0, 1) and q_ in (0, 1):
                    r.append(b[0] ^ q_)
                else:
                    r = None
                    break
    if r is None:
        if op == 'eq':
            # eq of a single-bit difference is affine
            x = bits(t.a[0])
            y = bits(t.a[1])
            if x is not None and y is not None:
                dd = [p ^ q_ for p, q_ in zip(x, y)]
                nz = [m for m in dd if m != 0]
                if len(nz) == 0:
                    r = [1]
                elif 1 in nz:
                    r = [0]
                elif len(set(nz)) == 1:
                    r = [nz[0] ^ 1]
        if r is None:
            r = [bitvar(t, i) for i in range(n)]
            if op not in ('c',):
                lo, hi = atom_range(t)
                if lo == 0 and hi is not None:
                    k = hi.bit_length()
                    for i in range(k, n):
                        r[i] = 0
    t._bits = r
    return r


def bit_reduce(m, sub):
    """apply a reduced substitution var->mask"""
    if not sub:
        return m
    out = m & 1
    m >>= 1
    v = 1
    res = out
    while m:
        low = m & -m
        idx = low.bit_length()      # var index (1-based)
        m ^= low
        s = sub.get(idx)
        if s is None:
            res ^= 1 << idx
        else:
            res ^= s
    return res


def bit_assume_zero(m, sub):
    """add m==0 to the substitution. returns new sub or None if contradictory"""
    m = bit_reduce(m, sub)
    if m == 0:
        return sub
    if m == 1:
        return None
    idx = m.bit_length() - 1
    rhs = m ^ (1 << idx)
    new = {}
    for k, v in sub.items():
        if (v >> idx) & 1:
            v = v ^ (1 << idx) ^ rhs
        new[k] = v
    new[idx] = rhs
    return new


# --- printing ---------------------------------------------------------------
_sy = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^',
       'shl': '<<', 'shr': '>>', 'eq': '==', 'lt': '<', 'le': '<=', 'div': '/',
       'rem': '%'}


def show(t, d=0):
    if d > 14:
        return '..'
    op, a = t.op, t.a
    sh = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if op == 'c':
        if t.ty == 'bool':
            return 'true' if a[0] else 'false'
        return str(a[0])
    if op == 'sym':
        return '%s#%d' % a if a[1] else a[0]
    if op in _sy:
        return '(%s %s %s)' % (sh(a[0]), _sy[op], sh(a[1]))
    if op == 'proj':
        k = a[1]
        return sh(a[0]) + projname(k, sh)
    if op == 'deref':
        return '*' + sh(a[0])
    if op == 'ref':
        return '&' + addr_show(a[0], sh)
    if op == 'slice':
        return '&%s[%s;%s]' % (addr_show(a[0], sh), sh(a[1]), sh(a[2]))
    if op == 'agg':
        return '%s{%s}' % (a[0], ', '.join(sh(x) for x in a[2:]))
    if op == 'upd':
        return '%s{%s}' % (sh(a[0]), ', '.join(projname(k, sh) + '=' + sh(v) for k, v in a[1]))
    if op in ('icast', 'bcast'):
        return '(%s as %s)' % (sh(a[0]), t.ty)
    if op == 'fn':
        return 'fn:%s' % a[1]
    return '%s(%s)' % (op, ', '.join(sh(x) for x in a))


def projname(k, sh):
    if k[0] == 'f':
        return '.%s' % k[1]
    if k[0] == 'v':
        return '.v%s.%s' % (k[1], k[2])
    if k[0] == 'i':
        return '[%s]' % sh(k[1])
    return '.%s' % (k,)


def addr_show(ad, sh):
    root, path = ad
    s = sh(root[1]) if isinstance(root[1], T) else '_'.join(str(x) for x in root)
    if root[0] == 'h':
        s = '*' + s
    for k in path:
        s += projname(k, sh)
    return s
