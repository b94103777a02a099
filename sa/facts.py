"""Path facts: what is known on one partition of the abstract state space."""
from terms import *

_HINTS = {}


def hint_rows(t):
    """state independent linear facts about a non linear atom"""
    r = _HINTS.get(t)
    if r is not None:
        return r
    rows = []

    def le(x, y):  # x <= y
        d, c = lin_sub(lin(y), lin(x))
        rows.append((d, c))
    op = t.op
    if op == 'and' and t.ty in INTS and not INTS[t.ty][0]:
        for x in t.a:
            if not is_c(x):
                le(t, x)
    elif op == 'shr' and t.ty in INTS and not INTS[t.ty][0] and is_c(t.a[1]):
        k = t.a[1].a[0]
        le(mk('mul', (t, C(1 << k, t.ty)), t.ty), t.a[0])
        le(t.a[0], mk('add', (mk('mul', (t, C(1 << k, t.ty)), t.ty), C((1 << k) - 1, t.ty)), t.ty))
    elif op == 'div' and t.ty in INTS and not INTS[t.ty][0] and is_c(t.a[1]) and t.a[1].a[0] > 0:
        k = t.a[1].a[0]
        le(mk('mul', (t, C(k, t.ty)), t.ty), t.a[0])
        le(t.a[0], mk('add', (mk('mul', (t, C(k, t.ty)), t.ty), C(k - 1, t.ty)), t.ty))
    elif op == 'rem' and t.ty in INTS and not INTS[t.ty][0]:
        le(t, t.a[0])
        le(mk('add', (t, C(1, t.ty)), t.ty), t.a[1])    # a zero divisor panicked before
    _HINTS[t] = rows
    return rows


def sign_of(a, b):
    """(term, its sign bit if a < b, its sign bit if not): None where that is not determined"""
    if is_c(b) and a.ty in INTS and INTS[a.ty][0]:
        return ((a, 1 if b.a[0] <= 0 else None, 0 if b.a[0] >= 0 else None),)
    if is_c(a) and b.ty in INTS and INTS[b.ty][0]:
        return ((b, 0 if a.a[0] >= -1 else None, 1 if a.a[0] <= -1 else None),)
    return ()


class Facts:
    __slots__ = ('known', 'excl', 'rows', 'bsub', 'bneq', 'neqs', '_cache')

    def __init__(self):
        self.known = {}
        self.excl = {}
        self.rows = ()
        self.bsub = {}
        self.bneq = ()
        self.neqs = ()
        self._cache = {}

    def copy(self):
        f = Facts.__new__(Facts)
        f.known = dict(self.known)
        f.excl = dict(self.excl)
        f.rows = self.rows
        f.bsub = self.bsub
        f.bneq = self.bneq
        f.neqs = self.neqs
        f._cache = {}
        return f

    # ---- numeric -------------------------------------------------------
    def _cone(self, extra):
        """rows connected with the query, plus the ranges of every atom"""
        rows = list(extra)
        vs = set()
        todo = []

        def addv(d):
            for x in d:
                if x not in vs:
                    vs.add(x)
                    todo.append(x)
        for d, _ in extra:
            addv(d)
        pend = list(self.rows)
        while True:
            while todo:
                x = todo.pop()
                lo, hi = atom_range(x)
                if lo is not None:
                    rows.append(({x: 1}, -lo))
                    rows.append(({x: -1}, hi))
                for d, c in hint_rows(x):
                    rows.append((d, c))
                    addv(d)
                if x in self.known and x.ty in INTS:
                    v = self.known[x]
                    rows.append(({x: 1}, -v))
                    rows.append(({x: -1}, v))
            rest = []
            hit = False
            for r in pend:
                if any(x in vs for x in r[0]):
                    rows.append(r)
                    addv(r[0])
                    hit = True
                else:
                    rest.append(r)
            pend = rest
            if not hit and not todo:
                break
        return rows

    def feasible(self, extra):
        for d, c in extra:
            if not d and c < 0:
                return False
        ex = [r for r in extra if r[0]]
        if not ex:
            return True
        # quick interval test
        for d, c in ex:
            m = c
            for x, v in d.items():
                lo, hi = atom_range(x)
                if lo is None:
                    m = None
                    break
                m += v * hi if v > 0 else v * lo
            if m is not None and m < 0:
                return False
        return not infeasible(self._cone(ex))

    def consistent(self):
        seen = set()
        for r in self.rows:
            pass
        return not self.rows or not infeasible(self._cone(list(self.rows)))

    def ge0(self, l):
        """is linear form >= 0 entailed"""
        d, c = l
        if not d:
            return c >= 0
        k = ('ge', tuple(sorted((x.id, v) for x, v in d.items())), c)
        r = self._cache.get(k)
        if r is None:
            r = not self.feasible([({x: -v for x, v in d.items()}, -c - 1)])
            self._cache[k] = r
        return r

    def entails_le(self, a, b):
        return self.ge0(lin_sub(lin(b), lin(a)))

    def entails_eq(self, a, b):
        if a is b:
            return True
        if a.ty in INTS and b.ty in INTS:
            l = lin_sub(lin(a), lin(b))
            if self.ge0(l) and self.ge0(({x: -v for x, v in l[0].items()}, -l[1])):
                return True
            return self.same_bits(a, b)
        return False

    def in_range(self, t, ty):
        lo, hi = ty_range(ty)
        d, c = lin(t)
        return (self.ge0((d, c - lo)) and
                self.ge0(({x: -v for x, v in d.items()}, hi - c)))

    # ---- bits ----------------------------------------------------------
    def rbits(self, t):
        b = bits(t)
        if b is None:
            return None
        if not self.bsub:
            return b
        return [bit_reduce(m, self.bsub) for m in b]

    def same_bits(self, a, b):
        x = self.rbits(a)
        y = self.rbits(b)
        if x is None or y is None:
            return False
        # compare as mathematical values: zero/sign extend
        n = max(len(x), len(y))

        def ext(v, t):
            s = INTS[t.ty][0]
            f = v[-1] if s else 0
            return v + [f] * (n - len(v))
        return ext(x, a) == ext(y, b)

    def bit_eq(self, a, b):
        """True / False / None from bit provenance"""
        x = self.rbits(a)
        y = self.rbits(b)
        if x is None or y is None or len(x) != len(y):
            return None
        dd = frozenset(p ^ q for p, q in zip(x, y)) - {0}
        if not dd:
            return True
        if 1 in dd:
            return False
        for ms in self.bneq:
            r = frozenset(bit_reduce(m, self.bsub) for m in ms) - {0}
            if 1 in r or r <= dd:
                if 1 in r:
                    continue
                return False
        return None

    def exhausted(self, ms):
        """do the recorded disequalities exclude every value of the few bits of ms"""
        vs = 0
        for m in ms:
            vs |= bit_reduce(m, self.bsub)
        vs &= ~1
        names = [i for i in range(vs.bit_length()) if (vs >> i) & 1]
        if not names or len(names) > 6:
            return False
        cons = []
        for xs in self.bneq:
            r = [bit_reduce(m, self.bsub) for m in xs]
            if 1 in r:
                continue
            if all((m & ~1) & ~vs == 0 for m in r):
                cons.append(r)
        for k in range(1 << len(names)):
            val = 1
            for j, i in enumerate(names):
                if (k >> j) & 1:
                    val |= 1 << i
            # a disequality is violated when all its masks are zero
            if not any(all(bin(m & val).count('1') % 2 == 0 for m in r) for r in cons):
                return False
        return True

    # ---- booleans --------------------------------------------------------
    def decide(self, c):
        """truth of a bool term"""
        if c.op == 'c':
            return bool(c.a[0])
        v = self.known.get(c)
        if v is not None:
            return bool(v)
        r = self._cache.get(c, 0)
        if r != 0:
            return r
        r = self._decide(c)
        self._cache[c] = r
        return r

    def _decide(self, c):
        op = c.op
        if op == 'not':
            v = self.decide(c.a[0])
            return None if v is None else not v
        if op == 'lt':
            a, b = c.a
            l = lin_sub(lin(b), lin(a))     # b-a
            d, k = l
            t = self.feasible([(d, k - 1)])            # b-a>=1
            f = self.feasible(self._withneq(({x: -v for x, v in d.items()}, -k)))   # a-b>=0
            if t and not f:
                return True
            if f and not t:
                return False
            if is_c(b) and not INTS[a.ty][0]:
                m = b.a[0]
                if m > 0 and m & (m - 1) == 0:
                    kk = m.bit_length() - 1
                    bs = self.rbits(a)
                    if bs is not None:
                        hi = frozenset(bs[kk:]) - {0}
                        if not hi:
                            return True
                        if 1 in hi:
                            return False
                        for ms in self.bneq:
                            r = frozenset(bit_reduce(mm, self.bsub) for mm in ms) - {0}
                            if r and 1 not in r and r <= hi:
                                return False
            return None
        if op == 'eq':
            a, b = c.a
            if a.ty in INTS and b.ty in INTS:
                d, k = lin_sub(lin(a), lin(b))
                if not d:
                    return k == 0
                r = self.bit_eq(a, b)
                if r is not None:
                    return r
                pos = self.feasible([(d, k), ({x: -v for x, v in d.items()}, -k)])
                if not pos:
                    return False
                nd = {x: -v for x, v in d.items()}
                if self._isneq(d, k):
                    return False
                if not self.feasible([(d, k - 1)]) and not self.feasible([(nd, -k - 1)]):
                    return True
                return None
            if a.op == 'discr' or b.op == 'discr':
                pass
            return None
        if op == 'notin':
            t, ty = c.a
            lo, hi = ty_range(ty)
            d, k = lin(t)
            nd = {x: -v for x, v in d.items()}
            inr = self.feasible([(d, k - lo), (nd, hi - k)])
            out = self.feasible([(nd, lo - 1 - k)]) or self.feasible([(d, k - hi - 1)])
            if inr and not out:
                return False
            if out and not inr:
                return True
            return None
        if c.ty == 'bool':
            b = self.rbits(c)
            if b is not None and b[0] in (0, 1):
                return bool(b[0])
        return None

    def _isneq(self, d, k):
        key = (tuple(sorted((x.id, v) for x, v in d.items())), k)
        nkey = (tuple(sorted((x.id, -v) for x, v in d.items())), -k)
        return any(n[0] == key or n[0] == nkey for n in self.neqs)

    def _withneq(self, row):
        """strengthen row>=0 to row>=1 when row==0 is known impossible"""
        if self.neqs and self._isneq(row[0], row[1]):
            return [(row[0], row[1] - 1)]
        return [row]

    def assume(self, c, truth=True):
        """facts with c==truth, or None when impossible"""
        if c.op == 'c':
            return self if bool(c.a[0]) == truth else None
        d = self.decide(c)
        if d is not None:
            return self if d == truth else None
        if c.op == 'not':
            return self.assume(c.a[0], not truth)
        f = self.copy()
        f.known[c] = 1 if truth else 0
        op = c.op
        if op == 'lt':
            a, b = c.a
            dd, k = lin_sub(lin(b), lin(a))
            if truth:
                f.rows = f.rows + ((dd, k - 1),)
                # bits: a < 2^k
                if is_c(b) and not INTS[a.ty][0]:
                    m = b.a[0] - 1
                    kk = m.bit_length()
                    bs = self.rbits(a)
                    if bs is not None:
                        sub = f.bsub
                        for x in bs[kk:]:
                            if x:
                                sub = bit_assume_zero(x, sub)
                                if sub is None:
                                    return None
                        f.bsub = sub
            else:
                row = ({x: -v for x, v in dd.items()}, -k)
                f.rows = f.rows + tuple(self._withneq(row))
                if is_c(b) and not INTS[a.ty][0]:
                    m = b.a[0]
                    if m > 0 and m & (m - 1) == 0:
                        kk = m.bit_length() - 1
                        bs = self.rbits(a)
                        if bs is not None:
                            hi = frozenset(bs[kk:]) - {0}
                            if len(hi) == 1:
                                f.bsub = bit_assume_zero(next(iter(hi)) ^ 1, f.bsub)
                                if f.bsub is None:
                                    return None
                            elif hi:
                                f.bneq = f.bneq + (hi,)
            for x, yes, no in sign_of(*c.a):
                bs = self.rbits(x)
                v = yes if truth else no
                if bs is not None and v is not None:
                    f.bsub = bit_assume_zero(bit_reduce(bs[-1], f.bsub) ^ v, f.bsub)
                    if f.bsub is None:
                        return None
        elif op == 'eq':
            a, b = c.a
            if a.ty in INTS and b.ty in INTS:
                dd, k = lin_sub(lin(a), lin(b))
                nd = {x: -v for x, v in dd.items()}
                x = self.rbits(a)
                y = self.rbits(b)
                if truth:
                    f.rows = f.rows + ((dd, k), (nd, -k))
                    if x is not None and y is not None and len(x) == len(y):
                        sub = f.bsub
                        for p, q in zip(x, y):
                            if p != q:
                                sub = bit_assume_zero(p ^ q, sub)
                                if sub is None:
                                    return None
                        f.bsub = sub
                else:
                    key = (tuple(sorted((z.id, v) for z, v in dd.items())), k)
                    f.neqs = f.neqs + ((key, dd, k),)
                    # strengthen if one direction is excluded
                    if not self.feasible([(dd, k - 1)]):
                        f.rows = f.rows + ((nd, -k - 1),)
                    elif not self.feasible([(nd, -k - 1)]):
                        f.rows = f.rows + ((dd, k - 1),)
                    if x is not None and y is not None and len(x) == len(y):
                        ms = frozenset(p ^ q for p, q in zip(x, y)) - {0}
                        if len(ms) == 1:
                            f.bsub = bit_assume_zero(next(iter(ms)) ^ 1, f.bsub)
                            if f.bsub is None:
                                return None
                        else:
                            f.bneq = f.bneq + (ms,)
                            if f.exhausted(ms):
                                return None
        elif op == 'notin':
            t, ty = c.a
            lo, hi = ty_range(ty)
            dd, k = lin(t)
            nd = {x: -v for x, v in dd.items()}
            if not truth:
                f.rows = f.rows + ((dd, k - lo), (nd, hi - k))
            else:
                if not self.feasible([(nd, lo - 1 - k)]):
                    f.rows = f.rows + ((dd, k - hi - 1),)
                elif not self.feasible([(dd, k - hi - 1)]):
                    f.rows = f.rows + ((nd, lo - 1 - k),)
        else:
            b = self.rbits(c)
            if b is not None:
                s = bit_assume_zero(b[0] ^ (1 if truth else 0), f.bsub)
                if s is None:
                    return None
                f.bsub = s
        return f

    # ---- enumerations ----------------------------------------------------
    def assume_disc(self, t, v):
        k = self.known.get(t)
        if k is not None:
            return self if k == v else None
        e = self.excl.get(t)
        if e and v in e:
            return None
        f = self.copy()
        f.known[t] = v
        f.excl.pop(t, None)
        return f

    def exclude_disc(self, t, vs, universe=None):
        k = self.known.get(t)
        if k is not None:
            return None if k in vs else self
        e = self.excl.get(t, frozenset()) | frozenset(vs)
        if universe is not None:
            rest = [u for u in universe if u not in e]
            if not rest:
                return None
            if len(rest) == 1:
                return self.assume_disc(t, rest[0])
        f = self.copy()
        f.excl[t] = e
        return f


def meet_facts(a, b):
    """facts implied by both (used when two partitions are merged)"""
    f = Facts()
    f.known = {k: v for k, v in a.known.items() if b.known.get(k, None) == v}
    f.excl = {k: v & b.excl[k] for k, v in a.excl.items() if k in b.excl}
    br = set((tuple(sorted((x.id, v) for x, v in d.items())), c) for d, c in b.rows)
    f.rows = tuple((d, c) for d, c in a.rows
                   if (tuple(sorted((x.id, v) for x, v in d.items())), c) in br)
    # bit facts: keep substitutions implied by both
    sub = {}
    for k, m in a.bsub.items():
        z = (1 << k) ^ m
        if bit_reduce(z, b.bsub) == 0:
            s = bit_assume_zero(z, sub)
            if s is not None:
                sub = s
    for k, m in b.bsub.items():
        z = (1 << k) ^ m
        if bit_reduce(z, a.bsub) == 0:
            s = bit_assume_zero(z, sub)
            if s is not None:
                sub = s
    f.bsub = sub
    f.bneq = tuple(x for x in a.bneq if x in b.bneq)
    f.neqs = tuple(x for x in a.neqs if any(x[0] == y[0] for y in b.neqs))
    return f
