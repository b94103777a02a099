"""Analyses of the (de)serialisation layer (de.rs, ser.rs, retrofit.rs, unknown.rs,
adapt.rs and the code the retrofit macro generates).

The public operations of the stream layer, of Context and the methods of the
Serialize / Deserialize traits are the alphabet: a call of one of them is an event
with a success and a failure outcome (their own behaviour is decided by the checks of
the stream layer and of Context, and for trait methods by applying the same rules to
every implementation).  Everything else is inlined."""
from lib import *

STREAM_MOD = 'fourleaf::stream::'
CTX = 'fourleaf::de::Context'
FIELD = 'fourleaf::stream::Field'
VALUE = 'fourleaf::stream::Value'
BLOB_P = 'fourleaf::stream::Blob'
DE = 'fourleaf::de::Deserialize'
SER = 'fourleaf::ser::Serialize'
SERAS = 'fourleaf::ser::SerializeAs'
RESULT = 'core::result::Result'
OPTION = 'core::option::Option'
API_TYPES = ('Stream', 'Blob', 'Field', 'Value', 'Element')
GETTERS = {'pos', 'struct_depth', 'eof', 'graceful_eof', 'len', 'remaining', 'start_pos',
           'end_pos', 'stream_pos', 'inner_pos', 'get_ref'}


class HL:
    """hook table"""

    def __init__(self, D, iters=False):
        self.D = D
        self.iters = iters      # follow iterators over collections item by item
        self.shown = {}         # format argument -> (value shown, its type)
        self.hooks = {'<any>': self.h_any}
        self.pub = {}
        for r in D.roots:
            p = r['path']
            if p.startswith(STREAM_MOD) and r['vis'] and r['reach']:
                seg = p[len(STREAM_MOD):].split('::')
                if seg[0] in API_TYPES and len(seg) > 1:
                    self.pub[p] = (seg[0], r['name'])

    # ------------------------------------------------------------- helpers
    def api_name(self, x):
        """(type, method) of a public stream-layer operation, or None"""
        n = self.pub.get(x['path'])
        if n is not None:
            return n
        if x.get('crate') == 'fourleaf' and x['path'].startswith(STREAM_MOD):
            seg = x['path'][len(STREAM_MOD):].split('::')
            if seg[0] in API_TYPES and len(seg) > 1 and self.D.crate != 'fourleaf':
                return seg[0], x['name']
        return None

    def res_tys(self, ty):
        if isinstance(ty, int):
            t = self.D.tys[ty]
            if t['k'] == 'adt' and t['path'] == RESULT:
                return self.D.kt(t['args'][0]), self.D.kt(t['args'][1])
        return None

    def opt_ty(self, ty):
        if isinstance(ty, int):
            t = self.D.tys[ty]
            if t['k'] == 'adt' and t['path'] == OPTION:
                return self.D.kt(t['args'][0])
        return None

    def value(self, name, ty):
        if ty is not None and self.D.s(ty) == '()':
            return UNIT
        return fresh(name, ty)

    def peel(self, c, v, ty):
        """follow references: the object behind a (possibly nested) pointer argument
        -> (identity term, address, type)"""
        e, D = c.e, self.D
        addr = None
        for _ in range(6):
            if not isinstance(ty, int) or D.tys[ty]['k'] not in ('ref', 'ptr'):
                break
            inner = D.kt(D.tys[ty]['t'])
            addr = e.addr_of(v)
            v = e.load(c.st, addr[0], addr[1], inner)
            ty = inner
        return v, addr, ty

    def objs(self, c):
        return [self.peel(c, a, t) for a, t in zip(c.args, c.argtys or [None] * len(c.args))]

    def split(self, c, kind, name, x, on_ok=None, payload=None):
        """Ok / Err outcomes of a fallible operation"""
        tys = self.res_tys(c.rty)
        outs = []
        s_ok, s_err = c.st, c.st.fork()
        v = payload if payload is not None else self.value(name.split('.')[-1], tys[0])
        c.ev(kind, name, ret=ok(v), st=s_ok, x=dict(x, ok=True, v=v))
        if on_ok:
            on_ok(s_ok, v)
        outs += c.ret(ok(v), s_ok)
        ev = self.value(name.split('.')[-1] + '.err', tys[1])
        c.ev(kind, name, ret=err(ev), st=s_err, x=dict(x, ok=False, err=ev))
        outs += c.ret(err(ev), s_err)
        return outs

    def outcome(self, c, kind, name, x, on_ok=None, none_st=None):
        """event for a call returning Result, Option<Result> or a plain value"""
        if self.res_tys(c.rty) is not None:
            return self.split(c, kind, name, x, on_ok)
        o = self.opt_ty(c.rty)
        tys = self.res_tys(o) if o is not None else None
        if tys is not None:
            s0, s1, s2 = none_st or c.st.fork(), c.st, c.st.fork()
            outs = []
            c.ev(kind, name, ret=NONE, st=s0, x=dict(x, ok=True, none=True))
            outs += c.ret(NONE, s0)
            v = self.value(name, tys[0])
            c.ev(kind, name, ret=some(ok(v)), st=s1, x=dict(x, ok=True, v=v))
            if on_ok:
                on_ok(s1, v)
            outs += c.ret(some(ok(v)), s1)
            ev = self.value(name + '.err', tys[1])
            c.ev(kind, name, ret=some(err(ev)), st=s2, x=dict(x, ok=False, err=ev))
            outs += c.ret(some(err(ev)), s2)
            return outs
        v = self.value(name, c.rty)
        c.ev(kind, name, ret=v, x=dict(x, ok=True, v=v))
        return c.ret(v)

    # ------------------------------------------------------------- dispatch
    def h_any(self, c):
        x = c.x
        decl = x.get('decl') or x['path']
        ti = x.get('trait_item') or ''
        for t, h in ((DE + '::', self.h_de), (SER + '::', self.h_ser), (SERAS + '::', self.h_seras)):
            if decl.startswith(t) or ti.startswith(t):
                return h(c, (decl if decl.startswith(t) else ti)[len(t):])
        n = self.api_name(x)
        if n is not None:
            return self.h_api(c, n)
        p = x['path']
        if p.startswith(CTX + '::'):
            return self.h_ctx(c, x['name'])
        if decl.startswith(('alloc::io::', 'core::io::', 'std::io::')) and c.args:
            v, addr, ty = self.peel(c, c.args[0], c.argtys[0] if c.argtys else None)
            if isinstance(ty, int) and self.D.tys[ty]['k'] == 'adt' and self.D.tys[ty]['path'] == BLOB_P:
                return self.h_api(c, ('Blob', decl.split('::')[-1]))
        if self.iters:
            r = self.h_iter(c, decl)
            if r is not None:
                return r
        if decl == 'alloc::string::ToString::to_string':
            return self.h_to_string(c)
        if p == "core::fmt::rt::Argument::<'_>::new_display" and c.args:
            v, addr, ty = self.peel(c, c.args[0], c.argtys[0] if c.argtys else None)
            r = mk('pure', (p,) + tuple(c.args), c.rty)
            self.shown[r] = (v, ty)
            return c.ret(r)
        if p == 'alloc::fmt::format' and c.args:
            only = self.only_shown(c, c.args[0])
            if only is not None:
                return self.h_to_string(c, only)
        if decl == 'core::default::Default::default' and not c.args:
            if str(c.inst) in self.D.bodies and x.get('crate') in (self.D.crate, 'fourleaf'):
                return None
            if c.rty in INTS:
                return c.ret(C(0, c.rty))
            v = fresh('default', c.rty)
            c.ev('default', 'default', ret=v, x={'ok': True, 'v': v})
            return c.ret(v)
        return None

    def h_api(self, c, n):
        kind, name = n
        o = self.objs(c)
        x = {'self': o[0][0] if o else None, 'self_addr': o[0][1] if o else None, 'objs': o, 'type': kind}
        if name in GETTERS:
            v = mk('pure', ('get:' + kind + '::' + name, o[0][0], fresh('t', None) if name in ('pos', 'remaining') else UNIT),
                   c.rty)
            c.ev('get', name, ret=v, x=dict(x, ok=True, v=v))
            return c.ret(v)
        if kind == 'Stream' and name == 'into_inner':
            v = mk('pure', ('into_inner', o[0][0]), c.rty)
            c.ev('api', name, ret=v, x=dict(x, ok=True, v=v))
            return c.ret(v)
        if kind == 'Stream' and name in ('new', 'new_seek', 'from_slice'):
            v = mk('pure', ('stream:' + name, c.args[0]), c.rty)
            c.ev('api', name, ret=v, x=dict(x, ok=True, v=v))
            return c.ret(v)
        if kind == 'Blob' and name in ('read_exact', 'read') and len(c.args) > 1:
            # the buffer holds bytes of the blob afterwards (also when it fails)
            a = c.args[1]
            v = mk('pure', ('blobdata', o[0][0], o[1][0], fresh('t', None)), o[1][2])
            if a.op == 'slice':
                root, path = a.a[0]
                x['whole'] = is_c(a.a[1]) and cv(a.a[1]) == 0
                x['slen'] = a.a[2]
                c.e.store(c.st, root, path, v)
            elif o[1][1] is not None:
                c.e.store(c.st, o[1][1][0], o[1][1][1], v)
            x['buf'] = v
            x['into'] = a
        return self.outcome(c, 'api', name, x)

    def h_ctx(self, c, name):
        o = self.objs(c)
        x = {'ctx': o[0][0], 'objs': o}
        if name == 'top':
            v = mk('pure', ('ctx.top', o[0][0], fresh('t', None)), c.rty)
            c.ev('ctx', 'top', ret=v, x=dict(x, ok=True, v=v))
            return c.ret(v)
        if name in ('push', 'push_tag'):
            tys = self.res_tys(c.rty)
            v = mk('pure', ('ctx.' + name, o[0][0], fresh('t', None)), tys[0])
            return self.split(c, 'ctx', name, x, payload=v)
        if name in ('unknown_field', 'collect', 'blob'):
            return self.outcome(c, 'ctx', name, x)
        return None

    def h_de(self, c, name):
        D = self.D
        a = c.x.get('args') or []
        o = self.objs(c)
        own = c.x.get('impl_self')
        x = {'self_ty': own if own is not None else a[0] if a else None, 'reader': a[1] if len(a) > 1 else None,
             'style': a[2] if len(a) > 2 else None, 'objs': o, 'callee': c.x, 'unresolved': c.x['kind'] == 'unresolved'}
        if name == 'serialized_as_slice':
            v = mk('pure', ('as_slice', x['self_ty']), 'bool')
            return c.ret(v)
        by = {'body': ('ctx', 'stream'), 'field': ('accum', 'ctx', 'field'), 'element': ('ctx', 'field'),
              'vec': ('ctx', 'field'), 'slice': ('dst', 'ctx', 'field')}
        k = name.replace('deserialize_', '')
        roles = by.get(k) or (('ctx', 'field') if k.startswith('array') else ('accum', 'ctx'))
        for r, ob in zip(roles, o):
            x[r] = ob[0]
            x[r + '_addr'] = ob[1]

        def on_ok(st, v):
            pass
        e = c.e
        pre = c.st.fork()       # "not handled" leaves everything as it was
        # a deserialiser may have changed the accumulator / destination even when it fails
        for r, ob in zip(roles, o):
            if r in ('accum', 'dst') and name != 'finish' and ob[1] is not None:
                if c.args[roles.index(r)].op == 'slice':
                    root, path = c.args[roles.index(r)].a[0]
                    nv = fresh('acc', None)
                    e.store(c.st, root, path, nv)
                else:
                    nv = fresh('acc', ob[2])
                    e.store(c.st, ob[1][0], ob[1][1], nv)
                x[r + '_after'] = nv
        return self.outcome(c, 'de', k, x, none_st=pre)

    def h_ser(self, c, name):
        a = c.x.get('args') or []
        o = self.objs(c)
        own = c.x.get('impl_self')
        x = {'self_ty': own if own is not None else a[0] if a else None, 'objs': o}
        k = name.replace('serialize_', '')
        x['what'] = c.args[0]
        x['src'] = o[0][0]
        if len(o) > 1:
            x['dst'] = d = o[1][0]
            x['dst_addr'] = o[1][1]
            if d.op == 'pure' and d.a[0] == 'stream:new' and d.a[1].op == 'ref':
                # a stream over a borrowed object writes to that object
                r, p = d.a[1].a[0]
                x['under'] = c.e.load(c.st, r, p)
                x['under_after'] = fresh('written', None)
                c.e.store(c.st, r, p, x['under_after'])
        if len(o) > 2:
            x['tag'] = o[2][0]
        return self.outcome(c, 'ser', k, x)

    def h_seras(self, c, name):
        if str(c.inst) in self.D.bodies and c.x.get('crate') in (self.D.crate, 'fourleaf'):
            return None
        o = self.objs(c)
        v = mk('pure', ('serialize_as', o[0][0]), c.rty)
        c.ev('seras', name, ret=v, x={'src': o[0][0], 'ok': True, 'v': v, 'what': c.args[0]})
        return c.ret(v)

    # iterators: an opaque object for the iteration over a whole collection, one event per item
    ITER_SAME = {'by_ref', 'peekable', 'fuse', 'copied', 'cloned', 'into_iter'}

    def std_iter(self, ty):
        if not isinstance(ty, int):
            return False
        t = self.D.tys[ty]
        return t['k'] == 'adt' and t['path'].startswith(('core::', 'alloc::', 'std::'))

    def h_iter(self, c, decl):
        D, e = self.D, c.e
        p, n = c.x['path'], c.x['name']
        if decl == 'core::iter::traits::collect::IntoIterator::into_iter' or (
                n == 'iter' and len(c.args) == 1 and p.startswith(('alloc::', 'std::', 'core::'))):
            v, addr, ty = self.peel(c, c.args[0], c.argtys[0] if c.argtys else None)
            a0 = c.args[0]
            if a0.op == 'slice' and not (is_c(a0.a[1]) and cv(a0.a[1]) == 0 and self.full_len(c, a0, v)):
                v = a0          # a part of the object
            if v.op == 'pure' and v.a[0].startswith('iter'):
                return c.ret(c.args[0])
            at = c.argtys[0] if c.argtys else None
            if isinstance(at, int) and D.tys[at]['k'] == 'adt' and D.tys[at]['path'].startswith('core::ops::range'):
                return None
            r = mk('pure', ('iter', v), c.rty)
            c.ev('iter', 'begin', ret=r, x={'ok': True, 'v': r, 'of': v})
            return c.ret(r)
        if decl == 'core::iter::traits::iterator::Iterator::next' and c.args:
            addr = e.addr_of(c.args[0])
            it = e.load(c.st, addr[0], addr[1])
            tyit = c.argtys[0] if c.argtys else None
            if it.op == 'agg':
                return None
            o = self.opt_ty(c.rty)
            if o is None:
                return None
            s0, s1 = c.st.fork(), c.st
            c.ev('iter', 'next', ret=NONE, st=s0, x={'ok': True, 'it': it, 'none': True})
            outs = c.ret(NONE, s0)
            item = mk('pure', ('item', it, fresh('t', None)), o)
            e.store(s1, addr[0], addr[1], mk('pure', ('after', it), it.ty))
            c.ev('iter', 'next', ret=some(item), st=s1, x={'ok': True, 'it': it, 'item': item})
            return outs + c.ret(some(item), s1)
        return None

    def full_len(self, c, a, v):
        """does the slice a of object v, from its start, go to its end?"""
        n = a.a[2]
        if v.op == 'agg' and v.a[0] == 'array':
            return is_c(n) and cv(n) == len(v.a) - 2
        (root, path) = a.a[0]
        if root[0] == 'h' and not path:
            for w in (root[1], mk('deref', (root[1],), None)):
                if w is v:
                    break
            try:
                return c.e.length(root[1]) is n or c.st.f.entails_eq(c.e.length(root[1]), n)
            except Exception:
                return False
        return False

    def only_shown(self, c, t):
        """format!("{}", x) -> x"""
        if t.op != 'pure' or not t.a[0].startswith('core::fmt::Arguments') or len(t.a) != 3:
            return None
        tpl, args = t.a[1:]
        if not (tpl.op == 'refc' and tpl.a[0].op == 'bytes' and tuple(tpl.a[0].a[0]) == (192, 0)):
            return None
        if args.op not in ('ref', 'slice'):
            return None
        root, path = c.e.addr_of(args)
        a = c.e.load(c.st, root, path)
        return self.shown.get(a.a[2]) if a.op == 'agg' and len(a.a) == 3 else None

    def h_to_string(self, c, given=None):
        v, ty = given or self.peel(c, c.args[0], c.argtys[0] if c.argtys else None)[::2]
        path = self.D.tys[ty]['path'] if isinstance(ty, int) and self.D.tys[ty]['k'] == 'adt' else None
        r = mk('pure', ('to_string', v), c.rty)
        c.ev('str', 'to_string', ret=r, x={'of': v, 'adt': path, 'ok': True, 'v': r})
        return c.ret(r)


EVKINDS = ('iter', 'api', 'ctx', 'de', 'ser', 'get', 'str', 'default', 'seras', 'call', 'fnptr')


class Method:
    """one analysed (de)serialisation function"""

    def __init__(self, ck, hl, r):
        self.root = r
        self.name = r['name']
        self.self_ty = r.get('impl_self')
        run = analyse_inst(ck, r, hl.hooks)
        self.run = run
        self.e = run.e
        self.args = run.args
        self.outs = run.outs
        self.at = run.at
        self.site = site_name(ck.D, r)


def site_name(D, r):
    return short(re.sub(r'<R(, STYLE)?>', '', r['path']))


def analyse_inst(ck, r, hooks):
    """like lib.analyse but by root record (paths may repeat)"""
    D = ck.D
    e = Engine(D, hooks)
    b = D.bodies[str(r['inst'])]
    args = [fresh('a%d' % (i + 1), D.kt(b['locals'][i + 1])) for i in range(b['argc'])]
    st = St({}, Facts(), None)
    st0 = st.fork()
    outs = e.call_inst(r['inst'], args, st)
    ck.analysed(site_name(D, r), len(outs))
    for k, v in e.loop_modes.items():
        ck.loops['%s bb%s' % (short(str(k[0])), k[1])] = v
    run = Run(r['path'], e, args, outs, st0)
    run.at = '%s:%s' % (r['file'], r['line'])
    return run


def de_methods(D):
    """every function of an implementation of Deserialize (and its provided methods)"""
    res = []
    for r in D.roots:
        if r.get('impl_trait') == DE or (r['path'].startswith(DE + '::')):
            if str(r['inst']) in D.bodies:
                res.append(r)
    return res


def ser_methods(D):
    return [r for r in D.roots if (r.get('impl_trait') == SER or r['path'].startswith(SER + '::'))
            and str(r['inst']) in D.bodies]
