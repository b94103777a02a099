"""Environment contracts used when the stream layer is analysed.

The underlying byte stream (the user's Read/Write/Seek object) is abstract: each
I/O primitive either succeeds, with the effect its std documentation promises, or
fails without effect on what the caller can observe.  A ghost cell per stream
counts how far the underlying byte stream has really advanced, so position
accounting can be compared with it.  Public wire-level functions are replaced by
their contract (decided separately by C01-C03)."""
from terms import *
from engine import *
from facts import Facts

STREAM = 'fourleaf::stream::Stream'
BLOB = 'fourleaf::stream::Blob'
MAXU = (1 << 64) - 1


def adt_of(D, ty):
    if isinstance(ty, int) and D.tys[ty]['k'] == 'adt':
        return D.tys[ty]
    return None


class Roles:
    """which private fields of Stream / Blob play which role, found through the
    public getters and field types (never through names)"""

    def __init__(self, D):
        self.D = D
        self.missing = []
        self.stream_ty = self.find_adt(STREAM)
        self.blob_ty = self.find_adt(BLOB)
        self.pos = self.getter('fourleaf::stream::Stream::<R>::pos')
        self.eof = self.getter('fourleaf::stream::Stream::<R>::eof')
        self.depth = self.getter('fourleaf::stream::Stream::<R>::struct_depth')
        self.graceful = self.getter('fourleaf::stream::Stream::<R>::graceful_eof')
        self.inner = self.getter_ref('fourleaf::stream::Stream::<R>::get_ref')
        self.blob_len = self.getter("fourleaf::stream::Blob::<'d, R>::len")
        self.blob_stream = None
        self.blob_end = None
        p = self.getter_path("fourleaf::stream::Blob::<'d, R>::end_pos")
        # Blob.stream -> deref -> Stream.blob_end
        if p is not None:
            self.blob_stream, self.blob_end = p
        else:
            self.missing.append('Blob::end_pos')
        self.commit = None
        self.seekf = None
        if self.stream_ty is not None:
            for i, (n, t) in enumerate(D.tys[self.stream_ty]['vs'][0]['f']):
                s = self.fnptr_in(t)
                if s is None:
                    continue
                if 'Stream<' in s:
                    self.commit = i
                else:
                    self.seekf = i
        if self.commit is None:
            self.missing.append('pending-commit slot of Stream')
        self.trackers = self.find_trackers()

    def find_adt(self, path):
        for i, t in enumerate(self.D.tys):
            if t['k'] == 'adt' and t['path'] == path and t['args'] and \
                    self.D.tys[t['args'][-1]]['k'] == 'param':
                return i
        for i, t in enumerate(self.D.tys):
            if t['k'] == 'adt' and t['path'] == path:
                return i
        self.missing.append(path)
        return None

    def _eval(self, path):
        D = self.D
        r = D.root_by_path.get(path)
        if r is None or str(r['inst']) not in D.bodies:
            return None
        e = Engine(D)
        b = D.bodies[str(r['inst'])]
        a = fresh('self', D.kt(b['locals'][1]))
        outs = [o for o in e.call_inst(r['inst'], [a], St({}, Facts(), None)) if o.kind == 'ret']
        if len(outs) != 1:
            return None
        return a, outs[0].val

    def getter(self, path):
        r = self._eval(path)
        if r is not None:
            a, v = r
            if v.op == 'proj' and v.a[1][0] == 'f' and v.a[0].op == 'deref' and v.a[0].a[0] is a:
                return v.a[1][1]
        self.missing.append(path)
        return None

    def getter_ref(self, path):
        r = self._eval(path)
        if r is not None:
            a, v = r
            if v.op == 'ref':
                root, p = v.a[0]
                if root == ('h', a) and len(p) == 1 and p[0][0] == 'f':
                    return p[0][1]
        self.missing.append(path)
        return None

    def getter_path(self, path):
        """value of the form (*(*self).i).j -> (i, j)"""
        r = self._eval(path)
        if r is None:
            return None
        a, v = r
        if v.op == 'proj' and v.a[1][0] == 'f' and v.a[0].op == 'deref':
            q = v.a[0].a[0]
            if q.op == 'proj' and q.a[1][0] == 'f' and q.a[0].op == 'deref' and q.a[0].a[0] is a:
                return q.a[1][1], v.a[1][1]
        return None

    def fnptr_in(self, t, d=0):
        """signature string of a function pointer reachable through Option/newtypes"""
        x = self.D.tys[t]
        if x['k'] == 'fnptr':
            return x['s']
        if d > 4 or x['k'] != 'adt':
            return None
        for v in x['vs']:
            for n, ft in v['f']:
                s = self.fnptr_in(ft, d + 1)
                if s is not None:
                    return s
        return None

    def find_trackers(self):
        """private local types holding `&mut Stream` that implement Read or Write:
        the position tracking adaptors -> {path: (stream field, flag field|None)}"""
        D = self.D
        res = {}
        pub = set()
        for t in D.tys:
            if t['k'] != 'adt' or t['crate'] != D.crate or t['enum'] or t['path'] in (BLOB, STREAM):
                continue
            if not t['vs']:
                continue
            sf = ff = None
            for i, (n, ft) in enumerate(t['vs'][0]['f']):
                x = D.tys[ft]
                if x['k'] == 'ref' and x.get('mut'):
                    a = adt_of(D, x['t'])
                    if a is not None and a['path'] == STREAM:
                        sf = i
                elif x['k'] == 'bool':
                    ff = i
            if sf is not None and self.implements_io(t['path']):
                res[t['path']] = (sf, ff)
        return res

    def implements_io(self, path):
        for r in self.D.roots:
            it = r.get('impl_trait') or ''
            if it.startswith(('alloc::io', 'core::io', 'std::io')) and path in r['path']:
                return True
        return False


class Obj:
    """an I/O object seen at a call: where its bytes come from / go to"""
    __slots__ = ('kind', 'addr', 'ptr', 'limit', 'flag', 'inner', 'ty', 'lim_addr')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.addr = self.ptr = self.limit = self.flag = self.inner = self.ty = self.lim_addr = None
        for k, v in kw.items():
            setattr(self, k, v)

    def stream(self):
        if self.kind == 'take':
            return self.inner.stream()
        return self.addr


class StreamEnv:
    """hook table for analysing functions of the stream layer"""

    def __init__(self, D, roles):
        self.D = D
        self.R = roles
        self.hooks = {}
        H = self.hooks
        W = 'fourleaf::wire::'
        for n in ('decode_u64', 'decode_i64', 'decode_descriptor'):
            H[W + n] = self.h_decode
        for n in ('encode_u64', 'encode_fixed_u64', 'encode_i64', 'encode_descriptor'):
            H[W + n] = self.h_encode
        H['alloc::io::read::Read::read'] = self.h_read
        H['alloc::io::read::Read::read_exact'] = self.h_read_exact
        H['alloc::io::read::Read::read_to_end'] = self.h_read_to_end
        H['alloc::io::buf_read::BufRead::fill_buf'] = self.h_fill_buf
        H['alloc::io::buf_read::BufRead::consume'] = self.h_consume
        H['core::io::write::Write::write'] = self.h_write
        H['core::io::write::Write::write_all'] = self.h_write_all
        H['core::io::write::Write::flush'] = self.h_flush
        H['core::io::seek::Seek::seek'] = self.h_seek
        H['alloc::io::copy::copy'] = self.h_copy
        H['<fnptr>'] = self.h_fnptr

    # -- helpers -----------------------------------------------------------
    def ghost(self, addr):
        root, path = addr
        k = root[1].id if root[0] == 'h' else root[1:]
        return ('g', 'off[%s%s]' % (k, ''.join('.%s' % (x[-1],) for x in path)))

    def off(self, e, st, addr):
        return e.load(st, self.ghost(addr), (), 'i128')

    def fld(self, e, st, addr, i, ty='u64'):
        return e.load(st, addr[0], addr[1] + (('f', i),), ty)

    def setf(self, e, st, addr, i, v):
        e.store(st, addr[0], addr[1] + (('f', i),), v)

    def pos(self, e, st, addr):
        return self.fld(e, st, addr, self.R.pos)

    def set_pos(self, e, st, addr, v):
        self.setf(e, st, addr, self.R.pos, v)

    def move(self, e, st, addr, k, real=True, logical=True):
        """advance by term k (i128-compatible linear term)"""
        if real:
            g = self.ghost(addr)
            e.store(st, g, (), e.canon(mk('add', (self.off(e, st, addr), k), 'i128'), 'i128'))
        if logical:
            self.set_pos(e, st, addr, e.canon(mk('add', (self.pos(e, st, addr), k), 'u64'), 'u64'))

    def addr_ty(self, e, st, addr):
        root, path = addr
        D = self.D
        if root[0] == 'h':
            ty = D.deref_ty(root[1].ty)
        else:
            v = st.mem.get(root)
            ty = v.ty if v is not None else None
            if v is not None and v.op == 'agg' and not path and v.a[0] == STREAM:
                return self.R.stream_ty
        for k in path:
            if ty is None:
                return None
            ty = D.proj_ty(ty, k)
        return ty

    def is_stream_addr(self, e, st, addr):
        a = adt_of(self.D, self.addr_ty(e, st, addr))
        if a is not None:
            return a['path'] == STREAM
        v = e.load(st, addr[0], addr[1])
        while v.op == 'upd':
            v = v.a[0]
        return v.op == 'agg' and v.a[0] == STREAM

    def obj(self, c, st, ptr, ty, depth=0):
        """classify the I/O object behind pointer value `ptr` whose pointee has type `ty`"""
        e, D, R = c.e, self.D, self.R
        if depth > 6:
            return Obj('other', ty=ty)
        root, path = e.addr_of(ptr)
        a = adt_of(D, ty)
        if a is not None:
            p = a['path']
            if p in R.trackers:
                sf, ff = R.trackers[p]
                sp = e.load(st, root, path + (('f', sf),), D.kt(a['vs'][0]['f'][sf][1]))
                fl = e.load(st, root, path + (('f', ff),), 'bool') if ff is not None else FALSE
                return Obj('tracker', addr=e.addr_of(sp), flag=fl, ty=ty)
            if p == BLOB:
                sp = e.load(st, root, path + (('f', R.blob_stream),),
                            D.kt(a['vs'][0]['f'][R.blob_stream][1]))
                return Obj('blob', addr=e.addr_of(sp), ptr=(root, path), ty=ty)
            if p.endswith('::Take') and len(a['vs'][0]['f']) >= 2:
                fs = a['vs'][0]['f']
                li = [i for i, (n, t) in enumerate(fs) if n == 'limit'] or [len(fs) - 1]
                ii = [i for i, (n, t) in enumerate(fs) if n == 'inner'] or [0]
                lim = e.load(st, root, path + (('f', li[0]),), 'u64')
                ity = D.kt(fs[ii[0]][1])
                inner = self.obj(c, st, e.mkref(root, path + (('f', ii[0]),)), ity, depth + 1)
                return Obj('take', inner=inner, limit=lim, ty=ty, lim_addr=(root, path + (('f', li[0]),)))
            if p.endswith('::Sink'):
                return Obj('sink', ty=ty)
            return Obj('other', ty=ty, ptr=(root, path))
        if isinstance(ty, int) and D.tys[ty]['k'] == 'ref':
            v = e.load(st, root, path, ty)
            return self.obj(c, st, v, D.kt(D.tys[ty]['t']), depth + 1)
        if path and path[-1] == ('f', R.inner):
            sa = (root, path[:-1])
            if self.is_stream_addr(e, st, sa):
                return Obj('inner', addr=sa, ty=ty)
        return Obj('param', ptr=(root, path), ty=ty)

    def arg_obj(self, c, i):
        ty = c.argtys[i]
        pt = self.D.deref_ty(ty) if ty is not None else None
        return self.obj(c, c.st, c.args[i], pt)

    def self_obj(self, c):
        return self.arg_obj(c, 0)

    def limit(self, c, st, o):
        """(bounds, ) list of terms an amount read through o cannot exceed"""
        e = c.e
        if o.kind == 'blob':
            end = self.fld(e, st, o.addr, self.R.blob_end)
            return [e.canon(mk('sub', (end, self.pos(e, st, o.addr)), 'i128'), 'i128')]
        if o.kind == 'take':
            return [o.limit] + self.limit(c, st, o.inner)
        return []

    def moves(self, o):
        return {'tracker': (True, True), 'blob': (True, True), 'inner': (True, False)}.get(o.kind)

    def advance(self, c, st, o, k):
        if o.kind == 'take':
            if o.lim_addr is not None:
                lim = c.e.load(st, o.lim_addr[0], o.lim_addr[1], 'u64')
                c.e.store(st, o.lim_addr[0], o.lim_addr[1],
                          c.e.canon(mk('sub', (lim, k), 'u64'), 'u64'))
            return self.advance(c, st, o.inner, k)
        m = self.moves(o)
        if m is not None:
            self.move(c.e, st, o.addr, k, *m)

    def amount(self, c, st, o, name, mx=None, ty='u64'):
        """fresh amount 0 <= k bounded by everything known about o; None if infeasible"""
        k = fresh(name, ty)
        rows = []
        bs = self.limit(c, st, o)
        if mx is not None:
            bs = bs + [mx]
        for b in bs:
            rows.append(lin_sub(lin(b), lin(k)))
        s = o.stream()
        if s is not None and self.moves(o.inner if o.kind == 'take' else o) in ((True, True),) or \
                (o.kind == 'take' and s is not None):
            # the tracker refuses to move past u64::MAX (decided by C07)
            rows.append(lin_sub(({}, MAXU), lin(mk('add', (self.pos(c.e, st, s), k), 'i128'))))
        f = st.f.copy()
        f.rows = f.rows + tuple(rows)
        st.f = f
        return k

    def io_err(self, c, what):
        return fresh(what + '.err', None)

    def io(self, c, st, name, o, ok, **x):
        d = {'obj': o, 'via': o.kind, 'stream': o.stream(), 'ok': ok}
        d.update(x)
        ret = d.pop('ret', None)
        e = c.ev('io', name, ret=ret, st=st, x=d)
        return e

    def err_ty(self, c):
        a = adt_of(self.D, c.rty)
        if a is not None and len(a['vs']) == 2:
            return self.D.kt(a['vs'][1]['f'][0][1])
        return None

    def ok_ty(self, c):
        a = adt_of(self.D, c.rty)
        if a is not None and len(a['vs']) == 2:
            return self.D.kt(a['vs'][0]['f'][0][1])
        return None

    def two(self, c):
        s2 = c.st.fork()
        return c.st, s2

    def fail(self, c, st, name, o, moved=False, **x):
        ev_e = fresh(name.split('::')[-1] + '.err', self.err_ty(c))
        r = err(ev_e)
        pre = dict(st.mem)
        if moved and self.moves(o.inner if o.kind == 'take' else o):
            k = self.amount(c, st, o, 'partial')
            self.io(c, st, name, o, False, ret=r, err=ev_e, partial=k, **x)
            self.advance(c, st, o, k)
        else:
            self.io(c, st, name, o, False, ret=r, err=ev_e, **x)
        return [Out('ret', st, r)]

    # -- wire --------------------------------------------------------------
    def h_decode(self, c):
        name = c.x['path'].split('::')[-1]
        o = self.self_obj(c)
        if o.kind in ('param', 'other'):
            return self.plain(c, name, o)
        a, b = self.two(c)
        outs = []
        vty = self.ok_ty(c)
        eofsub = o.kind == 'tracker' and o.flag is not None and not (is_c(o.flag) and o.flag.a[0] == 0)
        if name == 'decode_descriptor':
            d = agg('fourleaf::wire::Descriptor', 0, fresh('desc', 'u8'))
            v = d
            k = C(1, 'u64')
            self.io(c, a, name, o, True, ret=ok(v), v=v, k=k)
            f = a.f.copy()
            f.rows = f.rows + (lin_sub(({}, MAXU - 1), lin(self.pos(c.e, a, o.stream()))),)
            a.f = f
            self.advance(c, a, o, k)
            outs += c.ret(ok(v), a)
            if eofsub:
                s3 = b.fork()
                for s4, tr in c.e.branch(s3, o.flag):
                    if not tr:
                        continue
                    v = agg('fourleaf::wire::Descriptor', 0, C(0x40, 'u8'))
                    self.io(c, s4, name, o, True, ret=ok(v), v=v, k=C(0, 'u64'), substituted=True)
                    outs += c.ret(ok(v), s4)
        else:
            v = fresh('int', vty if vty in INTS else ('i64' if name == 'decode_i64' else 'u64'))
            k = self.amount(c, a, o, 'width')
            f = a.f.copy()
            f.rows = f.rows + (lin_sub(lin(k), ({}, 1)), lin_sub(({}, 257), lin(k)))
            a.f = f
            self.io(c, a, name, o, True, ret=ok(v), v=v, k=k)
            self.advance(c, a, o, k)
            outs += c.ret(ok(v), a)
        outs += self.fail(c, b, name, o, moved=True)
        return outs

    def h_encode(self, c):
        name = c.x['path'].split('::')[-1]
        o = self.self_obj(c)
        if o.kind in ('param', 'other'):
            return self.plain(c, name, o)
        a, b = self.two(c)
        k = fresh('width', 'u64')
        rows = [lin_sub(lin(k), ({}, 1)), lin_sub(({}, 10), lin(k))]
        if name == 'encode_descriptor':
            k = C(1, 'u64')
            rows = []
        elif name == 'encode_fixed_u64':
            k = C(10, 'u64')
            rows = []
        rows.append(lin_sub(({}, MAXU), lin(mk('add', (self.pos(c.e, a, o.stream()), k), 'i128'))))
        f = a.f.copy()
        f.rows = f.rows + tuple(rows)
        outs = []
        if f.consistent():
            a.f = f
            self.io(c, a, name, o, True, ret=ok(UNIT), v=c.args[1], k=k)
            self.advance(c, a, o, k)
            outs += c.ret(ok(UNIT), a)
        outs += self.fail(c, b, name, o, moved=True, v=c.args[1])
        return outs

    def plain(self, c, name, o):
        """I/O on an object the stream layer knows nothing about"""
        return None

    # -- std::io -------------------------------------------------------------
    def fill(self, c, st, buf, n=None):
        """the first n bytes of a caller buffer receive input"""
        e = c.e
        if buf.op == 'slice':
            root, path = buf.a[0]
            if is_c(buf.a[1]) and is_c(buf.a[2]) and cv(buf.a[2]) <= 64:
                b = cv(buf.a[1])
                for i in range(cv(buf.a[2])):
                    e.store(st, root, path + (('i', C(b + i, 'usize')),), fresh('in', 'u8'))
                return
            e.store(st, root, path, fresh('input', None))
        else:
            root, path = e.addr_of(buf)
            e.store(st, root, path, fresh('input', None))

    def store_byte(self, c, st, buf, v):
        if buf.op == 'slice':
            root, path = buf.a[0]
            c.e.store(st, root, path + (('i', buf.a[1]),), v)
        else:
            root, path = c.e.addr_of(buf)
            c.e.store(st, root, path + (('i', C(0, 'usize')),), v)

    def has_body(self, c):
        return c.inst is not None and str(c.inst) in self.D.bodies

    def local_impl(self, c):
        x = c.x
        return x is not None and x['kind'] == 'item' and x.get('crate') == self.D.crate

    def h_read(self, c):
        if self.local_impl(c):
            return None           # Blob::read, tracker read: analysed, not assumed
        o = self.self_obj(c)
        a, b = self.two(c)
        buf = c.args[1]
        n = self.amount(c, a, o, 'n', mx=c.e.length(buf), ty='usize')
        self.io(c, a, 'read', o, True, ret=ok(n), k=n, buf=buf)
        self.fill(c, a, buf, n)
        self.advance(c, a, o, n)
        return c.ret(ok(n), a) + self.fail(c, b, 'read', o)

    def h_read_exact(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        a, b = self.two(c)
        buf = c.args[1]
        ln = c.e.length(buf)
        outs = []
        f = a.f.copy()
        f.rows = f.rows + tuple(lin_sub(lin(l), lin(ln)) for l in self.limit(c, a, o))
        if o.kind == 'tracker':
            f.rows = f.rows + (lin_sub(({}, MAXU), lin(mk('add', (self.pos(c.e, a, o.addr), ln), 'i128'))),)
            if o.flag is not None and not (is_c(o.flag) and o.flag.a[0] == 0) and is_c(ln) and cv(ln) == 1:
                for s4, tr in c.e.branch(b.fork(), o.flag):
                    if not tr:
                        continue
                    ev = self.io(c, s4, 'read_exact', o, True, ret=ok(UNIT), k=C(0, 'u64'), buf=buf, substituted=True)
                    self.store_byte(c, s4, buf, C(0x40, 'u8'))
                    ev.x['after'] = dict(s4.mem)
                    outs += c.ret(ok(UNIT), s4)
        if f.consistent():
            a.f = f
            ev = self.io(c, a, 'read_exact', o, True, ret=ok(UNIT), k=ln, buf=buf)
            self.fill(c, a, buf)
            ev.x['after'] = dict(a.mem)
            self.advance(c, a, o, ln)
            outs += c.ret(ok(UNIT), a)
        return outs + self.fail(c, b, 'read_exact', o, moved=True)

    def h_read_to_end(self, c):
        o = self.self_obj(c)
        a, b = self.two(c)
        n = self.amount(c, a, o, 'n', ty='usize')
        self.io(c, a, 'read_to_end', o, True, ret=ok(n), k=n, buf=c.args[1],
                bounds=self.limit(c, a, o))
        root, path = c.e.addr_of(c.args[1])
        old = c.e.load(a, root, path)
        c.e.store(a, root, path, mk('vcat', (old, n), None))
        self.advance(c, a, o, n)
        r2 = self.fail(c, b, 'read_to_end', o, moved=True)
        for x in r2:
            old = c.e.load(x.st, root, path)
            c.e.store(x.st, root, path, mk('vcat', (old, fresh('n', 'usize')), None))
        return c.ret(ok(n), a) + r2

    def h_fill_buf(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        a, b = self.two(c)
        s = fresh('avail', self.ok_ty(c))
        self.io(c, a, 'fill_buf', o, True, ret=ok(s))
        return c.ret(ok(s), a) + self.fail(c, b, 'fill_buf', o)

    def h_consume(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        self.io(c, c.st, 'consume', o, True, k=c.args[1])
        self.advance(c, c.st, o, c.args[1])
        return c.ret(UNIT)

    def h_write(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        a, b = self.two(c)
        buf = c.args[1]
        n = self.amount(c, a, o, 'n', mx=c.e.length(buf), ty='usize')
        self.io(c, a, 'write', o, True, ret=ok(n), k=n, buf=buf)
        self.advance(c, a, o, n)
        return c.ret(ok(n), a) + self.fail(c, b, 'write', o)

    def h_write_all(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        a, b = self.two(c)
        buf = c.args[1]
        ln = c.e.length(buf)
        outs = []
        f = a.f.copy()
        f.rows = f.rows + tuple(lin_sub(lin(l), lin(ln)) for l in self.limit(c, a, o))
        s = o.stream()
        if s is not None:
            f.rows = f.rows + (lin_sub(({}, MAXU), lin(mk('add', (self.pos(c.e, a, s), ln), 'i128'))),)
        if f.consistent():
            a.f = f
            self.io(c, a, 'write_all', o, True, ret=ok(UNIT), k=ln, buf=buf)
            self.advance(c, a, o, ln)
            outs += c.ret(ok(UNIT), a)
        return outs + self.fail(c, b, 'write_all', o, moved=True, buf=buf)

    def h_flush(self, c):
        if self.local_impl(c):
            return None
        o = self.self_obj(c)
        a, b = self.two(c)
        self.io(c, a, 'flush', o, True, ret=ok(UNIT))
        return c.ret(ok(UNIT), a) + self.fail(c, b, 'flush', o)

    def do_seek(self, c, o, whence, name):
        e = c.e
        a, b = self.two(c)
        off = fresh('newoff', 'u64')
        wv = whence
        k = None
        mode = None
        if wv.op == 'agg' and wv.a[0].endswith('SeekFrom'):
            mode = wv.a[1]
            k = wv.a[2]
        if mode == 2 and k is not None:
            self.io(c, a, name, o, True, ret=ok(off), mode=mode, k=k, v=off)
            self.advance(c, a, o, k)
        else:
            self.io(c, a, name, o, True, ret=ok(off), mode=mode, k=k, v=off)
            if o.stream() is not None:
                a.mem[self.ghost(o.stream())] = mk('icast', (off,), 'i128')
        return c.ret(ok(off), a) + self.fail(c, b, name, o)

    def h_seek(self, c):
        if self.local_impl(c):
            return None
        return self.do_seek(c, self.self_obj(c), c.args[1], 'seek')

    def h_copy(self, c):
        src = self.arg_obj(c, 0)
        dst = self.arg_obj(c, 1)
        a, b = self.two(c)
        n = self.amount(c, a, src, 'copied')
        f = a.f.copy()
        f.rows = f.rows + tuple(lin_sub(lin(l), lin(n)) for l in self.limit(c, a, dst))
        a.f = f
        lim = self.limit(c, a, src)
        c.ev('io', 'copy', ret=ok(n), st=a, x={'src': src, 'dst': dst, 'ok': True, 'k': n,
                                               'via': 'copy', 'stream': src.stream(), 'bounds': lim})
        self.advance(c, a, src, n)
        self.advance(c, a, dst, n)
        ee = fresh('copy.err', self.err_ty(c))
        r = err(ee)
        k = self.amount(c, b, src, 'partial')
        c.ev('io', 'copy', ret=r, st=b, x={'src': src, 'dst': dst, 'ok': False, 'err': ee,
                                           'via': 'copy', 'stream': src.stream(), 'partial': k})
        self.advance(c, b, src, k)
        if dst.stream() is not None:
            k2 = self.amount(c, b, dst, 'partial')
            self.advance(c, b, dst, k2)
        return c.ret(ok(n), a) + [Out('ret', b, r)]

    # -- function pointers ---------------------------------------------------
    def h_fnptr(self, c):
        R = self.R
        D = self.D
        if len(c.args) == 2:
            # the remembered Seek::seek
            o = self.arg_obj(c, 0)
            return self.do_seek(c, o, c.args[1], 'seekfn')
        if len(c.args) == 1:
            # the pending commit operation (its own obligations: C05, C07, C23)
            addr = c.e.addr_of(c.args[0])
            o = Obj('commit', addr=addr)
            a, b = self.two(c)
            outs = []
            for st, good in ((a, True), (b, False)):
                k = fresh('commit.moved', 'i64')
                f = st.f.copy()
                np = mk('add', (self.pos(c.e, st, addr), k), 'i128')
                f.rows = f.rows + (lin(np), lin_sub(({}, MAXU), lin(np)))
                st.f = f
                if good:
                    self.io(c, st, 'commit', o, True, ret=ok(UNIT), k=k, f=c.fv)
                    self.move(c.e, st, addr, k)
                    outs += c.ret(ok(UNIT), st)
                else:
                    ee = fresh('commit.err', self.err_ty(c))
                    self.io(c, st, 'commit', o, False, ret=err(ee), err=ee, partial=k, f=c.fv)
                    self.move(c.e, st, addr, k)
                    outs += [Out('ret', st, err(ee))]
            return outs
        return None
