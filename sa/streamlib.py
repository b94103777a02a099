"""Analyses of the stream layer shared by several checks."""
from lib import *
from contracts import *

S = 'fourleaf::stream::Stream::<R>::'
B = "fourleaf::stream::Blob::<'d, R>::"
V = "fourleaf::stream::Value::<'d, R>::"
F = "fourleaf::stream::Field::<'d, R>::"
SLOT_NONE, SLOT_SOME, SLOT_UNKNOWN = 'none', 'some', 'unknown'


class Lib:
    def __init__(self, ck):
        self.ck = ck
        self.D = ck.D
        self.R = Roles(ck.D)
        for m in self.R.missing:
            ck.fail('anchor', m, 'cannot be located through the public interface')
        if self.R.missing:
            raise Anchor('stream roles: %s' % self.R.missing)

    def run(self, path, kind, pre=None, hooks=None, record=True):
        """kind: where the stream is: 'stream' (arg 1 is &[mut] Stream), 'blob'
        (arg 1 is &[mut] Blob)"""
        env = StreamEnv(self.D, self.R)
        if hooks:
            env.hooks.update(hooks)
        box = {}

        def p(e, st, args):
            box['addr'] = self.stream_addr(e, st, args[0], kind)
            addr = box['addr']
            rows = []
            if kind == 'blob':
                pos = env.pos(e, st, addr)
                end = env.fld(e, st, addr, self.R.blob_end)
                ln = self.blob_len(e, st, args[0])
                rows += [lin_sub(lin(end), lin(pos)),
                         lin_sub(lin(mk('add', (pos, ln), 'i128')), lin(end)),
                         lin_sub(lin(end), lin(ln))]
            if rows:
                f = st.f.copy()
                f.rows = f.rows + tuple(rows)
                st.f = f
            if pre:
                return pre(e, st, args, addr, env)
        r = analyse(self.ck, path, env.hooks, pre=p, env=env, record=record)
        r.addr = box['addr']
        r.kind = kind
        return r

    def stream_addr(self, e, st, a, kind):
        if kind == 'stream':
            return e.addr_of(a)
        root_, path = e.addr_of(a)
        if kind == 'tracker':
            t = self.D.tys[self.D.deref_ty(a.ty)]
            sf = self.R.trackers[t['path']][0]
            return e.addr_of(e.load(st, root_, path + (('f', sf),), self.D.kt(t['vs'][0]['f'][sf][1])))
        sp = e.load(st, root_, path + (('f', self.R.blob_stream),),
                    self.D.kt(self.D.tys[self.R.blob_ty]['vs'][0]['f'][self.R.blob_stream][1]))
        return e.addr_of(sp)

    def blob_len(self, e, st, a):
        root_, path = e.addr_of(a)
        return e.load(st, root_, path + (('f', self.R.blob_len),), 'u64')

    # -- views of a state ----------------------------------------------------
    def field(self, run, st, i, ty='u64'):
        return run.e.load(st, run.addr[0], run.addr[1] + (('f', i),), ty)

    def pos(self, run, st):
        return self.field(run, st, self.R.pos)

    def off(self, run, st):
        return run.e.load(st, run.env.ghost(run.addr), (), 'i128')

    def slot(self, run, st):
        """state of the pending-commit slot -> (status, function value)"""
        v = run.e.load(st, run.addr[0], run.addr[1] + (('f', self.R.commit),),
                       self.slot_ty())
        return self.slot_status(run.e, st, v)

    def slot_ty(self):
        return self.D.kt(self.D.tys[self.R.stream_ty]['vs'][0]['f'][self.R.commit][1])

    def slot_status(self, e, st, v):
        t = e.discr(v, 'isize')
        if t.op == 'c':
            return (SLOT_SOME if t.a[0] else SLOT_NONE), v
        k = st.f.known.get(t)
        if k is not None:
            return (SLOT_SOME if k else SLOT_NONE), v
        return SLOT_UNKNOWN, v

    def at_event(self, ev):
        return St(dict(ev.mem), ev.f, None)

    def on(self, run, ev):
        """does the I/O event concern the stream under analysis?"""
        return ev.kind == 'io' and (ev.x.get('stream') == run.addr or
                                    any(ev.x.get(k) is not None and ev.x[k].stream() == run.addr
                                        for k in ('src', 'dst')))


def flat(events, loops=None):
    """io events of a trace, loop bodies included once each"""
    r = []
    for ev in events:
        if ev.kind == 'loop':
            for seg, st in ev.x['segs']:
                r += flat(seg)
        else:
            r.append(ev)
    return r


def slot_fn(e, v):
    x = e.proj(e.proj(v, ('v', 1, 0)), ('f', 0))
    if x.op == 'fn':
        return x.a[1]
    return None


def root_of_path(D, inst):
    for r in D.roots:
        if r['path'] == inst:
            return r
    return None


def settlement_fns(L):
    """the functions installed as pending settlement, found as the values the slot
    holds after the public operations that open a blob -> {path: opening operation}"""
    fns = {}
    for p in (S + 'next_element', S + 'write_blob_alloc', S + 'write_blob_dynamic'):
        r = L.run(p, 'stream', record=False)
        for o in r.rets():
            s, v = L.slot(r, o.st)
            fn = slot_fn(r.e, v)
            if s == SLOT_SOME and fn is not None:
                fns.setdefault(fn, p)
    return fns


def valid_alignment(e, f, a):
    """the documented precondition of pad_to_align: a power of two"""
    f = f.assume(e.le(C(1, 'u64'), a), True)
    m = e.canon(mk('sub', (a, C(1, 'u64')), 'u64'), 'u64')
    return f.assume(e.eq(e.bitop(f, 'and', a, m, 'u64'), C(0, 'u64')), True)
