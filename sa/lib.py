"""Shared helpers of the checks."""
import re
from terms import *
from engine import *
from facts import Facts
from contracts import Roles, StreamEnv, STREAM, BLOB, MAXU
from framework import Anchor

R_OK, R_ERR = 0, 1
ERR = 'fourleaf::stream::Error'
DERR = 'fourleaf::de::Error'


class Run:
    """all outcomes of one function from one entry state"""

    def __init__(self, path, e, args, outs, st0, env=None):
        self.path = path
        self.e = e
        self.args = args
        self.outs = outs
        self.st0 = st0
        self.env = env
        self.name = short(path)

    def rets(self):
        return [o for o in self.outs if o.kind == 'ret']


def short(path):
    return path.replace('fourleaf::', '')


def canon_path(p):
    """path with lifetimes and generic parameter names abstracted"""
    p = re.sub(r"'[a-z_]+,? ?", '', p)
    return re.sub(r'\b[A-Z][A-Z0-9]?\b', '_', p)


def root(D, path):
    r = D.root_by_path.get(path)
    if r is None:
        c = canon_path(path)
        m = [x for x in D.roots if canon_path(x['path']) == c]
        if len(m) == 1:
            return m[0]
        raise Anchor('function %s not found' % path)
    if str(r['inst']) not in D.bodies:
        raise Anchor('function %s has no body' % path)
    return r


def analyse(ck, path, hooks=None, pre=None, env=None, record=True, args=None):
    """run `path` on symbolic arguments; pre(e, st, args) may add entry facts"""
    D = ck.D
    r = root(D, path)
    e = Engine(D, hooks)
    b = D.bodies[str(r['inst'])]
    if args is None:
        args = [fresh('a%d' % (i + 1), D.kt(b['locals'][i + 1])) for i in range(b['argc'])]
    st = St({}, Facts(), None)
    if pre is not None:
        args = pre(e, st, args) or args
    st0 = st.fork()
    outs = e.call_inst(r['inst'], args, st)
    if record:
        ck.analysed(short(path), len(outs))
        for k, v in e.loop_modes.items():
            ck.loops['%s bb%s' % (short(str(k[0])), k[1])] = v
    run = Run(path, e, args, outs, st0, env)
    run.at = '%s:%s' % (r['file'], r['line'])
    return run


def basic(ck, run, rule='terminates-normally', panics=True):
    """no stuck / unreachable outcome; optionally no panic"""
    for o in run.outs:
        if o.kind in ('stuck', 'unreachable') or (panics and o.kind == 'panic'):
            ck.fail(rule, run.name, '%s: %s' % (o.kind, o.why), o.site)
            return False
    ck.ob(rule, run.name, True)
    return True


def result_of(e, o):
    """(is_ok, payload) of a Result outcome, or (None, value)"""
    v = o.val
    if v.op == 'agg' and v.a[0] == 'core::result::Result':
        return v.a[1] == R_OK, v.a[2] if len(v.a) > 2 else UNIT
    t = e.discr(v, 'isize')
    k = o.st.f.known.get(t)
    if k is not None:
        return k == 0, e.proj(v, ('v', k, 0))
    return None, v


def io_events(o, name=None):
    return [ev for ev in o.events() if ev.kind == 'io' and (name is None or ev.name == name)]


def contains(v, x, depth=0):
    """does value v carry value x (through aggregates)?"""
    if v is x:
        return True
    if depth > 8:
        return False
    if v.op == 'agg':
        return any(isinstance(y, T) and contains(y, x, depth + 1) for y in v.a[2:])
    if v.op in ('box',):
        return any(isinstance(y, T) and contains(y, x, depth + 1) for y in v.a)
    if v.op == 'pure':
        return any(isinstance(y, T) and contains(y, x, depth + 1) for y in v.a)
    return False


def is_err_variant(D, v, adt, name):
    """is v (an aggregate) the named variant of enum adt?"""
    if v.op != 'agg' or v.a[0] != adt:
        return False
    return variant_name(D, adt, v.a[1]) == name


def variant_name(D, adt, i):
    for t in D.tys:
        if t['k'] == 'adt' and t['path'] == adt:
            return t['vs'][i]['name']
    return None


def ext_bits(f, t, n):
    """n low bits (zero/sign extended) of t under facts f"""
    b = f.rbits(t)
    if b is None:
        return None
    fill = b[-1] if INTS[t.ty][0] else 0
    return (b + [fill] * n)[:n]


def refuted(f, c, truth=True):
    """is c==truth impossible under f"""
    return f.assume(c, truth) is None


# ---- linear comparisons under the facts (rows are linear forms that are not negative)

def row_gt(a, b):
    """row for a > b"""
    return lin_sub(lin_sub(lin(a), lin(b)), ({}, 1))


def same_num(f, a, b):
    """a == b on this path"""
    if a is b:
        return True
    return not f.feasible([row_gt(a, b)]) and not f.feasible([row_gt(b, a)])


def differ_num(f, a, b):
    """a != b on this path"""
    d = norm(lin_sub(lin(a), lin(b)))
    neg = norm(lin_sub(lin(b), lin(a)))
    for k, v in f.known.items():
        if k.op == 'eq' and not v and len(k.a) == 2:
            try:
                if norm(lin_sub(lin(k.a[0]), lin(k.a[1]))) in (d, neg):
                    return True
            except Exception:
                continue
    return not f.feasible([lin_sub(lin(a), lin(b)), lin_sub(lin(b), lin(a))])


def norm(l):
    return frozenset((k, v) for k, v in l[0].items() if v), l[1]
