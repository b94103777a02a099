"""What is read back is what was written: each writer of a type is matched against the
readers of the same type, by induction over the structure of values.

An outcome of a writer is turned into the piece of document it writes (leaves with the
value written, nested values with the part of the object they are made from); an outcome
of a reader into the piece of document it accepts (with the symbol each nested value is
bound to) and the value it builds.  Where the two pieces have the same shape, the value
built, with each bound symbol replaced by what the writer put there (the induction
hypothesis), has to be the object written."""
from codec import *
from serlib import *

REST = 64         # stands for all fields with other tags
SCAL = {'null', 'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'bool'}
# constructor -> accessors of the object whose results, as arguments, give the object back
CTORS = {
    'core::time::Duration::new': ('core::time::Duration::as_secs', 'core::time::Duration::subsec_nanos'),
    'core::net::socket_addr::SocketAddrV4::new': ('core::net::socket_addr::SocketAddrV4::ip',
                                                  'core::net::socket_addr::SocketAddrV4::port'),
    'core::net::socket_addr::SocketAddrV6::new': ('core::net::socket_addr::SocketAddrV6::ip',
                                                  'core::net::socket_addr::SocketAddrV6::port',
                                                  'core::net::socket_addr::SocketAddrV6::flowinfo',
                                                  'core::net::socket_addr::SocketAddrV6::scope_id'),
}
IPS = {'core::net::ip_addr::Ipv4Addr': 4, 'core::net::ip_addr::Ipv6Addr': 16}
# what an accessor can return: (accessor, exclusive bound)
BOUNDED = {'core::time::Duration::subsec_nanos': 10 ** 9}
POINTERS = ('deref', 'borrow', 'as_ref', 'as_slice', 'as_mut', 'deref_mut')


def tkey(D, ty):
    """name of a type with references removed"""
    while isinstance(ty, int) and D.tys[ty]['k'] == 'ref':
        ty = D.kt(D.tys[ty]['t'])
    return D.s(ty) if isinstance(ty, int) else 'Self'


INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64}


def reads_back(w, r):
    """can values written as type w be read as type r (induction hypothesis applies)?"""
    if w == r:
        return True
    if w in INTW and r in INTW:
        return w[0] == r[0] and INTW[w] <= INTW[r]
    m = re.match(r'^<(.+) as alloc::borrow::ToOwned>::Owned$', r)
    if m:
        return m.group(1) == w
    for wr in WRAPS:
        for a, b in ((w, r), (r, w)):
            if a.startswith(wr + '<') and a.endswith('>') and a[len(wr) + 1:-1].split(', ')[-1] == b:
                return True
    return False


# ------------------------------------------------------------------------ writers

class Node:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def __repr__(self):
        d = {k: (show(v)[:60] if isinstance(v, T) else v) for k, v in self.__dict__.items() if k not in ('kind', 'ev', 'f')}
        return '%s%r' % (self.kind, d)


def wnodes(m, events, st):
    """the document one successful outcome of a writer writes"""
    top = []
    stack = [top]
    for ev in events:
        x = ev.x or {}
        if ev.kind == 'loop':
            stack[-1].append(Node('loop', segs=[(wnodes(m, seg, sst), seg, sst) for seg, sst in ev.x['segs']], ev=ev))
            continue
        if ev.kind == 'ser':
            if x.get('none'):
                stack[-1].append(Node('none', ev=ev, ty=x['self_ty'], src=x['src']))
                continue
            if ev.name == 'body':
                stack[-1].append(Node('body', src=x['src'], ty=x['self_ty'], ev=ev))
                if len(stack) > 1:
                    stack.pop()
                continue
            stack[-1].append(Node('ser', how=ev.name, tag=x.get('tag'), src=x['src'], ty=x['self_ty'], ev=ev))
            continue
        if ev.kind != 'api':
            continue
        o = x['objs']
        tag = o[1][0] if len(o) > 1 else None
        if ev.name in OPENS:
            n = Node('enum' if ev.name == 'write_enum' else 'struct', tag=tag, ch=[], ev=ev,
                     d=o[2][0] if len(o) > 2 else None)
            stack[-1].append(n)
            stack.append(n.ch)
        elif ev.name == 'write_end_struct':
            if len(stack) > 1:
                stack.pop()
        elif ev.name in WRITES1:
            n = ev.name[len('write_'):]
            stack[-1].append(Node('leaf', x='blob' if n == 'blob_data' else n, tag=tag,
                                  arg=ev.args[2] if len(ev.args) > 2 else UNIT,
                                  obj=o[2][0] if len(o) > 2 else UNIT, ev=ev))
    return top


class WOut:
    def __init__(self, m, o):
        self.m, self.o, self.f = m, o, o.st.f
        self.nodes = wnodes(m, o.events(), o.st)
        self.calls = {ev.ret: ev for ev in all_events(o.events()) if ev.kind == 'call' and ev.ret is not None}

    def self_obj(self):
        return self.m.obj


def writer_outs(m):
    return [WOut(m, o) for o in m.outs if o.kind == 'ret' and m.result(o)[0] == 'ok']


# ------------------------------------------------------------------------ readers

class ROut:
    """one successful outcome of a reader: shape, what it is bound to, and the value built"""

    def __init__(self, m, o):
        self.m, self.o, self.f = m, o, o.st.f
        self.calls = {ev.ret: ev for ev in all_events(o.events()) if ev.kind == 'call' and ev.ret is not None}
        r, v = m.result(o)
        self.value = v
        if m.name == 'deserialize_field':
            a0, a1 = entry_after(m, o)
            s = is_some_of(a1)
            self.value = s if s is not None else a1
        self.node = None
        self.lost = None
        self.parse(o.events())

    def parse(self, events):
        m = self.m
        prod, cells = {}, {}
        shape = None
        blob = {}
        for ev in events:
            x = ev.x or {}
            if ev.kind == 'loop':
                now = {(r, p): nv for r, p, part, v0, nv in x['syms'] if part is None}
                for seg, sst in x['segs']:
                    for e2 in seg:
                        if e2.kind == 'de' and e2.name in ('field', 'element') and e2.x.get('ok'):
                            t = m.e.proj(e2.x['field'], ('f', m.tagix), 'u8')
                            k = const_of(sst.f, t)
                            k = REST if k is None else k
                            ad = e2.x.get('accum_addr')
                            ad = (ad[0], ad[1]) if ad else None
                            cells[k] = (now.get(ad), e2.x['self_ty'], ad, e2)
                continue
            if ev.kind == 'api' and x.get('ok'):
                if ev.name.startswith('to_') and m.origin(x['self']) == 'own-field':
                    n = ev.name[3:]
                    if n == 'blob':
                        blob[x['v']] = ev
                        shape = Node('leaf', x='blob', v=None, ev=ev)
                    elif n in ('struct', 'enum'):
                        shape = Node(n, ev=ev, d=m.e.proj(x['v'], ('f', 0), 'u64') if n == 'enum' else None,
                                     inner=None)
                    elif n in SCAL:
                        shape = Node('leaf', x=n, v=x['v'], ev=ev)
                    else:
                        self.lost = 'unexpected operation %s' % ev.name
                elif ev.name in ('read_fully', 'ext_slice') and shape is not None and shape.x == 'blob':
                    shape.v = x['v']
                elif ev.name == 'read_exact' and shape is not None and shape.kind == 'leaf' and shape.x == 'blob':
                    shape.v = x.get('buf')
                    shape.partial = not (x.get('whole') is None or x.get('whole') is True)
                continue
            if ev.kind != 'de' or not x.get('ok') or x.get('none'):
                continue
            org = m.origin(x['field']) if x.get('field') is not None else \
                m.origin(x['stream']) if x.get('stream') is not None else None
            if ev.name == 'body':
                n = Node('body', v=x['v'], ty=x['self_ty'], ev=ev)
                if org == 'own-stream':
                    shape = n
                elif shape is not None and shape.kind in ('struct', 'enum'):
                    shape.inner = n
            elif ev.name == 'element' and org == 'own-field':
                shape = Node('as', v=x['v'], ty=x['self_ty'], ev=ev)
            elif ev.name == 'field' and org == 'own-field':
                own = m.e.addr_of(m.args[0]) if m.name == 'deserialize_field' else None
                ad = x.get('accum_addr')
                shape = Node('asfield', v=None, ty=x['self_ty'], ev=ev, after=x.get('accum_after'),
                             deleg=own is not None and ad is not None and (ad[0], ad[1]) == (own[0], own[1]))
            elif (ev.name in ('vec', 'slice') or ev.name.startswith('array')) and org == 'own-field':
                shape = Node('slice', v=x.get('dst_after') if ev.name == 'slice' else x['v'], ty=x['self_ty'], ev=ev)
            elif ev.name == 'finish':
                if shape is not None and shape.kind == 'asfield' and x['accum'] is shape.after:
                    shape.v = x['v']
                    continue
                hit = False
                for k, (nv, ty, ad, e2) in cells.items():
                    if nv is not None and nv is x['accum']:
                        prod[k] = (x['v'], x['self_ty'])
                        hit = True
        if m.stream is not None and shape is None:
            shape = Node('product', fields=prod, cells=cells)
        elif shape is not None and shape.kind in ('struct', 'enum') and shape.inner is None:
            shape.inner = Node('product', fields=prod, cells=cells)
        self.node = shape


def reader_outs(m):
    return [ROut(m, o) for o in m.outs if o.kind == 'ret' and m.result(o)[0] == 'ok']


# ------------------------------------------------------------------- values equal

class Match:
    """comparing the value a reader builds with the object a writer wrote"""

    def __init__(self, w, r, bind):
        self.w, self.r = w, r
        self.bind = bind        # reader symbol -> (writer term, address-less object)
        self.D = r.m.D

    def strip(self, t):
        for _ in range(8):
            if t.op in ('icast', 'cast') and len(t.a) and isinstance(t.a[0], T) and lossless(t.a[0].ty, t.ty):
                t = t.a[0]
            elif t.op == 'box':
                t = t.a[0]
            elif t.op == 'agg' and len(t.a) == 3 and t.a[0] in WRAPS:
                t = t.a[2]
            else:
                break
        return t

    def wobj(self, t):
        """writer term with references followed"""
        e = self.w.m.e
        for _ in range(6):
            if t.op == 'ref':
                (root, path) = t.a[0]
                t = e.load(self.w.o.st, root, path)
            else:
                break
        return self.strip(t)

    def same(self, v, target, depth=0):
        if depth > 8:
            return False
        v = self.strip(v)
        b = self.bind.get(v)
        if b is not None:
            return self.weq(b, target)
        ev = self.r.calls.get(v)
        if ev is None and v.op == 'proj':
            # part of a checked conversion: from_utf8(..)?.  from_u32(..)?
            ev = self.r.calls.get(v.a[0])
            if ev is not None and ev.name in IDENT and ev.args:
                return self.same(ev.args[0], target, depth + 1)
            ev = None
        if ev is not None:
            acc = CTORS.get(ev.name)
            if acc is not None and len(acc) == len(ev.args):
                return all(self.access(a, n, target) for a, n in zip(ev.args, acc))
            for p, n in IPS.items():
                if ev.name == p + '::new':
                    return self.octets(ev.args, p, target) if n == 4 else self.segments(ev.args, p, target)
                if ev.name.startswith('<' + p + ' as core::convert::From<[u8; %d]>>' % n) or \
                        ev.name == p + '::from_octets':
                    return len(ev.args) == 1 and (self.access(ev.args[0], p + '::octets', target) or
                                                  self.octets(ev.args[0].a[2:] if ev.args[0].op == 'agg' else (), p, target))
            if len(ev.args) == 1 and ev.name.split('::')[-1] in ('new', 'from', 'into') and \
                    any(w + '<' in ev.name or w + '::' in ev.name for w in WRAPS):
                return self.same(ev.args[0], target, depth + 1)
            if ev.name in IDENT and ev.args:
                return self.same(ev.args[0], target, depth + 1)
            return False
        if v.op == 'pure' and v.a[0] == 'wrap':
            return self.same(v.a[1], target, depth + 1)
        if v.op == 'agg':
            kind, k = v.a[0], v.a[1]
            t = self.wobj(target)
            if t.op == 'agg':
                return t.a[0] == kind and t.a[1] == k and len(t.a) == len(v.a) and \
                    all(self.same(x, y, depth + 1) for x, y in zip(v.a[2:], t.a[2:]))
            e = self.w.m.e
            if self.is_enum(kind):
                if variant(e, self.w.o.st, t) != k:
                    return False
                return all(self.same(x, e.proj(t, ('v', k, i)), depth + 1) for i, x in enumerate(v.a[2:]))
            if kind == 'array':
                return bool(v.a[2:]) and all(self.same(x, e.proj(t, ('i', C(i, 'usize'))), depth + 1)
                                             for i, x in enumerate(v.a[2:]))
            return all(self.same(x, e.proj(t, ('f', i)), depth + 1) for i, x in enumerate(v.a[2:]))
        return False

    def is_enum(self, path):
        for t in self.D.tys:
            if t['k'] == 'adt' and t['path'] == path:
                return bool(t.get('enum'))
        return False

    def weq(self, src, target):
        """writer terms: the source of a nested value is the wanted part of the object"""
        s, t = self.wobj(src), self.wobj(target)
        return s is t

    def access(self, a, name, target):
        """reader term a is bound to what accessor `name` of the object returned"""
        a = self.strip(a)
        b = self.bind.get(a)
        if b is None:
            return False
        b = self.strip(b)
        while b.op == 'deref':
            b = b.a[0]
        ev = self.w.calls.get(b)
        if ev is None or ev.name != name or len(ev.args) != 1:
            return False
        return self.arg_is(ev.args[0], target)

    def arg_is(self, a, target):
        e = self.w.m.e
        if a is target or self.strip(a) is target:
            return True
        if target.op == 'deref' and target.a[0] is a:
            return True
        try:
            ad = e.addr_of(a)
            return e.load(self.w.o.st, ad[0], ad[1]) is target
        except Exception:
            return False

    def octets(self, args, p, target):
        if len(args) != IPS[p]:
            return False
        arr = None
        for i, a in enumerate(args):
            a = self.strip(a)
            if a.op != 'proj' or a.a[1][0] != 'i' or not is_c(a.a[1][1]) or cv(a.a[1][1]) != i:
                return False
            if arr is None:
                arr = a.a[0]
            elif arr is not a.a[0]:
                return False
        return arr is not None and self.access(arr, p + '::octets', target)


    def segments(self, args, p, target):
        """eight 16-bit numbers made of the sixteen octets, high one first"""
        e = self.r.m.e
        for arr in self.bind:
            if not self.access(arr, p + '::octets', target):
                continue
            o = [e.proj(arr, ('i', C(i, 'usize')), 'u8') for i in range(16)]
            if len(args) == 8 and all(a.ty == 'u16' and self.r.f.rbits(a) == self.r.f.rbits(o[2 * i + 1]) +
                                      self.r.f.rbits(o[2 * i]) for i, a in enumerate(args)):
                return True
        return False


# checked conversions whose success value denotes the same text / character
IDENT = {'core::str::converts::from_utf8', 'alloc::string::String::from_utf8', 'core::char::from_u32',
         'core::char::methods::<impl char>::from_u32', 'core::char::convert::from_u32',
         'core::str::<impl str>::to_owned', 'core::str::from_utf8', 'core::str::<impl str>::from_utf8'}


# ------------------------------------------------------------------------- matching

class Trip:
    """the codec of the program: writers and readers by type"""

    def __init__(self, ck, D=None):
        self.ck = ck
        D = self.D = D or ck.D
        self.w, self.r, self.sa = {}, {}, {}
        self.blanket = {}
        for m in ser_all(ck, D):
            ty = m.self_ty
            key = 'Self' if ty is None or m.root['path'].startswith(SER + '::') else tkey(D, ty)
            if isinstance(ty, int) and D.tys[ty]['k'] == 'param' and key != 'Self':
                self.blanket[m.name[10:]] = m
            else:
                self.w.setdefault(key, {})[m.name[10:]] = m
        for m in de_all(ck, D):
            path = m.root['path']
            if path.startswith(DE + '::') or not isinstance(m.self_ty, int):
                self.r.setdefault('Self', {}).setdefault('', {})[m.name] = m
                continue
            st = D.s(m.style) if m.style is not None else ''
            self.r.setdefault(tkey(D, m.self_ty), {}).setdefault(st, {})[m.name] = m
        hl = HL(D, iters=True)
        for r in D.roots:
            if r.get('impl_trait') == SERAS and str(r['inst']) in D.bodies:
                m = Method(ck, hl, r)
                self.sa[tkey_own(D, r['impl_self'])] = m

    def writer(self, key, kind):
        g = self.w.get(key)
        if g is None:
            return None
        return g.get(kind) or self.w['Self'].get(kind)

    def reader(self, g, name):
        return g.get(name) or self.r['Self'][''].get(name)


def tkey_own(D, ty):
    return D.s(ty)


class Obj:
    """reports about one type"""

    def __init__(self, ck, site, at):
        self.ck, self.site, self.at = ck, site, at
        self.res = {}
        self.n = 0
        self.kind = None

    def bad(self, rule, detail, at=None):
        self.res.setdefault(rule, (detail, at or self.at))

    def flush(self, rules):
        for r in rules:
            self.ck.ob(r, self.site, r not in self.res, *(self.res.get(r) or ('', None)))
        for r in self.res:
            if r not in rules:
                self.ck.ob(r, self.site, False, *self.res[r])


def bytes_of(w, arg, obj):
    """is this blob argument the whole content of the object?"""
    if arg.op == 'vslice':
        return arg.a[0] is obj or w.m.e.deref(w.m.run.st0, w.m.args[0]) is arg.a[0]
    if arg is w.m.args[0]:
        return True
    b = arg
    for _ in range(4):
        ev = w.calls.get(b)
        if ev is not None and ev.name.split('::')[-1] in ('as_bytes', 'as_str', 'as_slice', 'deref', 'as_ref', 'borrow') \
                and len(ev.args) == 1:
            b = ev.args[0]
            if b is w.m.args[0] or b.op == 'vslice' and b.a[0] is obj:
                return True
            continue
        break
    return False


def body_product(t, w, nodes, key):
    """tag -> (src, type) of the fields a body writes, or ('body', src, ty) if it delegates"""
    nodes = [n for n in nodes if n.kind != 'none']
    if len(nodes) == 1 and nodes[0].kind == 'body':
        return nodes[0]
    res = {}
    for n in nodes:
        if n.kind == 'body' and n is nodes[-1] and is_rest(t.D, n.ty):
            res[REST] = (n.src, n.ty, 'rest')
        elif n.kind == 'ser' and n.how in ('field', 'element'):
            k = const_of(w.f, n.tag)
            if k is None or k in res:
                return None
            res[k] = (n.src, n.ty, n.how)
        elif n.kind == 'leaf':
            k = const_of(w.f, n.tag)
            if k is None or k in res:
                return None
            res[k] = (n.arg if n.x == 'blob' else n.obj, n.x, 'leaf')
        else:
            return None
    return res


def is_rest(D, ty):
    """a type that stands for any number of arbitrary fields"""
    return isinstance(ty, int) and re.search(r"(^|[ <])fourleaf::unknown::UnknownFields<'[^<>]*>>*$", tkey(D, ty)) is not None


def tag_name(k):
    return 'the remaining fields' if k == REST else 'the field with tag %d' % k


def lossless(a, b):
    """does a cast from integer type a to b keep every value?"""
    if a == 'char':
        return b in ('u32', 'u64', 'i64')
    if a == 'bool':
        return b in INTW
    if a not in INTW or b not in INTW:
        return a == b
    if a[0] == b[0]:
        return INTW[a] <= INTW[b]
    return a[0] == 'u' and INTW[a] < INTW[b]


def match_product(O, M, w, wprod, r, rprod, target, value, alias):
    """fields written against fields read"""
    if rprod.kind == 'body':
        O.bad('shape-agrees', 'fields are written but the reader hands its struct to another type')
        return
    if len(rprod.fields) == 1 and O.kind == 'opt':
        # the one field of an optional value, written directly
        (k, (v, rty)), = rprod.fields.items()
        e, x = w.m.e, variant(w.m.e, w.o.st, M.wobj(target))
        if x == 0 and not wprod:
            wprod = {k: (target, rty, 'field')}
        elif x == 1 and list(wprod) == [k] and M.wobj(wprod[k][0]) is e.proj(M.wobj(target), ('v', 1, 0)):
            wprod = {k: (target, rty, 'field')}
    for k in sorted(wprod):
        src, ty, how = wprod[k]
        if k not in rprod.fields:
            O.bad('every-field-read', '%s is written but the reader does not know it' % tag_name(k), r.m.at)
            continue
        v, rty = rprod.fields[k]
        wt, rt = ty if how == 'leaf' else tkey(M.D, ty), tkey(M.D, rty)
        if not (reads_back(wt, rt) or (wt, rt) in alias):
            O.bad('types-agree', '%s is written as %s and read as %s' % (tag_name(k), wt, rt), r.m.at)
        M.bind[M.strip(v)] = src
        if rt.startswith('fourleaf::adapt::Copied<'):
            M.bind[r.m.e.proj(v, ('f', 0))] = src
    for k in sorted(k for k in rprod.fields if k is not None and k not in wprod):
        O.bad('every-field-written', '%s: read but not written' % tag_name(k), r.m.at)
    if 'every-field-read' not in O.res and not M.same(value, target):
        O.bad('value-rebuilt', 'the value read is not rebuilt from its parts as it was written: %s' % show(value)[:120],
              r.m.at)


def match_inner(O, t, w, nodes, r, inner, target, value, alias, key, rg, bind=()):
    """content of a struct: written nodes against what the reader does with its stream"""
    M = Match(w, r, dict(bind))
    wp = body_product(t, w, nodes, key)
    if wp is None:
        O.bad('shape-agrees', 'the fields written are not one value per tag: %s' % (nodes,))
        return
    if isinstance(wp, Node) and inner.kind != 'body' and is_rest(t.D, wp.ty):
        wp = {REST: (wp.src, wp.ty, 'rest')}
    if isinstance(wp, Node) and inner.kind == 'body':
        wt, rt = tkey(M.D, wp.ty), tkey(M.D, inner.ty)
        if not (reads_back(wt, rt) or (wt, rt) in alias):
            O.bad('types-agree', 'the content is written as %s and read as %s' % (wt, rt), r.m.at)
        M.bind[M.strip(inner.v)] = wp.src
        if not M.same(value, target):
            O.bad('value-rebuilt', 'the value read is not the one written: %s' % show(value)[:120], r.m.at)
        return
    if isinstance(wp, Node):
        # the writer delegates, the reader does the fields itself: use what that type's body writes
        wt = tkey(M.D, wp.ty)
        bm = t.writer(wt, 'body')
        if bm is None or M.wobj(wp.src) is not M.wobj(target):
            O.bad('shape-agrees', 'the content is written as a %s but read field by field' % wt)
            return
        for w2 in writer_outs(bm):
            M2 = Match(w2, r, dict(bind))
            wp2 = body_product(t, w2, w2.nodes, key)
            if not isinstance(wp2, dict):
                O.bad('shape-agrees', 'the content is written as a %s but read field by field' % wt)
                return
            match_product(O, M2, w2, wp2, r, inner, w2.m.obj, value, alias)
        return
    if inner.kind == 'body':
        # the writer does the fields itself, the reader delegates: use what that type's body reads
        rt = tkey(M.D, inner.ty)
        if M.strip(value) is not inner.v:
            O.bad('value-rebuilt', 'the value read is not the one written: %s' % show(value)[:120], r.m.at)
        g2 = group(t, rt, inner.ty, rg)
        bm = t.reader(g2, 'deserialize_body') if g2 is not None else None
        if bm is None:
            O.bad('shape-agrees', 'fields are written but a %s is read' % rt)
            return
        al = set(alias)
        if bm.root['path'].startswith(DE + '::'):
            al |= {(key, 'Self'), (key, rt)}
        for r2 in reader_outs(bm):
            match_product(O, Match(w, r2, {}), w, wp, r2, r2.node, target, r2.value, al)
        return
    match_product(O, M, w, wp, r, inner, target, value, alias)


def group(t, rt, ty, rg):
    """the reader group of a type"""
    gs = t.r.get(rt)
    if gs is None:
        m = re.match(r'^\((.*)\)$', rt)
        if m is not None:
            n = len([x for x in m.group(1).split(',') if x.strip()])
            for k, g in t.r.items():
                m2 = re.match(r'^\((.*)\)$', k)
                if m2 and len([x for x in m2.group(1).split(',') if x.strip()]) == n:
                    return list(g.values())[0]
        return None
    return list(gs.values())[0]


def match_node(O, t, w, wn, r, target, alias, key, rg):
    """one tagged value written against one reader outcome; False: this outcome is for a
    different shape of input"""
    rn = r.node
    if rn is None:
        O.bad('shape-agrees', 'the reader accepts something it does not look at', r.m.at)
        return True
    M = Match(w, r, {})
    if rn.kind == 'as' and tkey(M.D, rn.ty) in (key, 'Self') and \
            not (wn.kind == 'ser' and tkey(M.D, wn.ty) in (key, 'Self')):
        # through the element reader of the same type
        if M.strip(r.value) is not rn.v:
            O.bad('value-rebuilt', 'the value read is not the one deserialised', r.m.at)
        return None
    if wn.kind == 'leaf':
        if rn.kind == 'leaf' and rn.x == wn.x:
            M.bind[M.strip(rn.v)] = target if wn.x == 'blob' else M.strip(wn.obj)
            if wn.x == 'blob' and not bytes_of(w, wn.arg, target):
                O.bad('value-rebuilt', 'the blob written is not the whole content of the value', w.m.at)
            if wn.x != 'null' and not M.same(r.value, target):
                O.bad('value-rebuilt', 'the value read is not the one written: %s' % show(r.value)[:120], r.m.at)
            return True
        return rn.kind not in ('leaf',) and rn.kind not in ('struct', 'enum', 'slice', 'as', 'asfield')
    if wn.kind == 'struct':
        if rn.kind != 'struct':
            return False
        match_inner(O, t, w, wn.ch, r, rn.inner, target, r.value, alias, key, rg)
        return True
    if wn.kind == 'enum':
        if rn.kind != 'enum':
            return False
        d = const_of(w.f, wn.d)
        k = disc_const(r.f, rn.d)
        bind = {}
        if k is None:
            # the catch-all
            if d is not None and refuted(r.f, mk('eq', (rn.d, C(d, 'u64')), 'bool')):
                return False
            if rn.d is not None:
                bind[M.strip(rn.d)] = wn.d
        elif d is None or k != d:
            # a value kept by a catch-all has a discriminant the type does not declare
            return False
        match_inner(O, t, w, wn.ch, r, rn.inner, target, r.value, alias, key, rg, bind)
        return True
    if wn.kind == 'ser' and wn.how == 'slice':
        if rn.kind != 'slice':
            return False
        M.bind[M.strip(rn.v)] = target
        if M.wobj(wn.src) is not M.wobj(target):
            O.bad('value-rebuilt', 'something other than the whole value is written as a blob', w.m.at)
        if r.m.name != 'deserialize_field' and not M.same(r.value, target):
            O.bad('value-rebuilt', 'the value read is not the blob written', r.m.at)
        return True
    if wn.kind == 'ser':
        if rn.kind != 'as':
            return False
        wt, rt = tkey(M.D, wn.ty), tkey(M.D, rn.ty)
        if not (reads_back(wt, rt) or (wt, rt) in alias):
            O.bad('types-agree', 'the value is written as %s and read as %s' % (wt, rt), r.m.at)
        M.bind[M.strip(rn.v)] = wn.src
        if not M.same(r.value, target):
            O.bad('value-rebuilt', 'the value read is not the one written: %s' % show(r.value)[:120], r.m.at)
        return True
    O.bad('shape-agrees', 'unrecognised output %s' % wn.kind, w.m.at)
    return True


def match_single(O, t, wouts, routs, rexp, alias, key, rg, targets=None):
    """every value written as one tagged value is accepted, and only by readers that rebuild it"""
    for w in wouts:
        ns = [n for n in w.nodes if n.kind != 'none']
        if len(ns) != 1:
            O.bad('shape-agrees', 'a value is not written as one tagged value', w.m.at)
            continue
        got = False
        for r in routs:
            k = match_node(O, t, w, ns[0], r, w.m.obj, alias, key, rg)
            if k is None:
                for r2 in rexp:
                    got |= bool(match_node(O, t, w, ns[0], r2, w.m.obj, alias, key, rg))
            got |= bool(k)
        O.n += 1
        if not got:
            O.bad('shape-agrees', 'no reader accepts what is written: %s' % describe(ns[0], w), w.m.at)


def describe(n, w):
    if n.kind == 'leaf':
        return 'a value of kind ' + n.x
    if n.kind == 'enum':
        return 'an enum with discriminant %s' % const_of(w.f, n.d)
    if n.kind == 'ser':
        return 'a nested %s' % tkey(w.m.D, n.ty)
    return 'a ' + n.kind


def match_body(O, t, wouts, routs, alias, key, rg, owrap=None):
    for w in wouts:
        wp = body_product(t, w, w.nodes, key)
        for r in routs:
            O.n += 1
            M = Match(w, r, {})
            if r.node is None or wp is None:
                O.bad('shape-agrees', 'the body is not written or read field by field', r.m.at)
                continue
            match_inner(O, t, w, w.nodes, r, r.node, w.m.obj, r.value, alias, key, rg)


# ---------------------------------------------------------------------- collections

def iteration(O, w, obj, one):
    """the loop writing a collection goes over all of it, in order, writing each item once;
    `one(nodes, item, st)` judges what is written for an item"""
    m = w.m
    e = m.e
    st = {'pending': None, 'done': False, 'begun': False, 'nodes': []}
    alts = [obj, e.deref(w.o.st, mk('vslice', (obj,)))]

    def whole(x):
        return x is obj or x.op == 'deref' and x.a[0].op == 'vslice' and x.a[0].a[0] is obj

    def is_it(t):
        for _ in range(30):
            t = m.link.get(t, t)
            if t.op == 'pure' and t.a[0] == 'after':
                t = t.a[1]
                continue
            return t.op == 'pure' and t.a[0] == 'iter' and whole(t.a[1])
        return False

    def settle(f):
        if st['pending'] is not None:
            one(st['nodes'], st['pending'], f)
            st['pending'], st['nodes'] = None, []
        elif st['nodes']:
            O.bad('items-written', 'something that is not an item of the collection is written', m.at)
            st['nodes'] = []

    def walk(events, sst):
        stack_events = []
        for ev in events:
            if ev.kind == 'loop':
                flush(stack_events, sst)
                stack_events = []
                settle(sst)
                rest = rest_loop(m, ev, whole)
                if rest is not None:
                    for seg, s2 in ev.x['segs']:
                        one([n for n in wnodes(m, seg, s2) if n.kind != 'none'],
                            e.proj(e.deref(s2, rest), ('i', C(0, 'usize'))), s2)
                    if w.o.st.f.entails_le(e.length(rest), C(0, 'usize')):
                        st['done'] = True
                    continue
                nv = index_loop(m, ev)
                if nv is not None:
                    for seg, s2 in ev.x['segs']:
                        ns = [n for n in wnodes(m, seg, s2) if n.kind != 'none']
                        items = [e.proj(x, ('i', nv)) for x in alts]
                        used = [x for n in ns if n.kind == 'ser' for x in chain(e, s2, n.src)
                                if x in items or x.op == 'proj' and x.a[1] == ('i', nv) and whole(x.a[0])]
                        one(ns, (used or items)[0], s2)
                    lens = [mk('len', (x,), 'usize') for x in (obj, obj.a[0] if obj.op == 'deref' else obj)]
                    if any(w.o.st.f.entails_le(ln, nv) for ln in lens):
                        st['done'] = True
                    continue
                for seg, s2 in ev.x['segs']:
                    sv = dict(st)
                    walk(seg, s2)
                    settle(s2)
                    if st['done'] and not sv['done']:
                        O.bad('items-written', 'an iteration goes on after the last item', m.at)
                    st.update(sv)
                    st['pending'], st['nodes'] = None, []
                continue
            if ev.kind == 'iter' and ev.name == 'next':
                flush(stack_events, sst)
                stack_events = []
                settle(sst)
                if not is_it(ev.x['it']):
                    O.bad('items-written', 'the iteration is not over the whole collection in its order', ev.site)
                if ev.x.get('none'):
                    st['done'] = True
                else:
                    st['pending'] = ev.x['item']
                continue
            stack_events.append(ev)
        flush(stack_events, sst)

    def flush(evs, sst):
        st['nodes'] += [n for n in wnodes(m, evs, sst) if n.kind != 'none']

    walk(w.o.events(), w.o.st)
    settle(w.o.st)
    if not st['done']:
        O.bad('items-written', 'success before all items were written', m.at)


def chain(e, st, t):
    """t and the objects it is a part of"""
    for _ in range(40):
        yield t
        if t.op in ('deref', 'proj'):
            t = t.a[0]
        elif t.op == 'pure' and t.a[0] == 'after':
            t = t.a[1]
        elif t.op == 'ref' and t.a[0][0][0] == 'h':
            t = e.load(st, *t.a[0])
        else:
            return


def rest_loop(m, ev, whole):
    """the slice of what is left, of a loop that starts with all of it and drops the first item
    each time round"""
    e = m.e
    for r, p, part, v0, nv in ev.x['syms']:
        if part or not ev.x['segs'] or not (v0.op == 'vslice' and whole(v0.a[0])):
            continue
        for seg, s2 in ev.x['segs']:
            t = e.load(s2, r, p)
            if not (t.op == 'slice' and t.a[0] == (('h', nv), ()) and is_c(t.a[1]) and cv(t.a[1]) == 1 and
                    not any(x.kind == 'iter' for x in all_events(seg)) and
                    s2.f.entails_eq(e.add(t.a[2], C(1, 'usize'), 'usize'), e.length(nv))):
                break
        else:
            return nv
    return None


def index_loop(m, ev):
    """the counter of a loop that goes 0, 1, 2 .. (and does not pull from an iterator)"""
    for seg, s2 in ev.x['segs']:
        if any(x.kind == 'iter' for x in all_events(seg)):
            return None
    for r, p, part, v0, nv in ev.x['syms']:
        if part or not (is_c(v0) and cv(v0) == 0) or not ev.x['segs']:
            continue
        if all(m.e.load(s2, r, p) is m.e.add(nv, C(1, 'usize'), 'usize') for seg, s2 in ev.x['segs']):
            return nv
    return None


def is_item(w, src, item):
    """is this object the item (items are references into the collection)?"""
    for _ in range(4):
        if src is item:
            return True
        if src.op == 'deref':
            src = src.a[0]
        elif src.op == 'ref':
            root, path = src.a[0]
            src = w.m.e.load(w.o.st, root, path)
        else:
            return False
    return False


def collection(O, t, key, w_field, kind, item_tys, rg, ismap):
    """serialize_field of a collection against deserialize_field"""
    rf = rg['deserialize_field']
    routs = reader_outs(rf)
    ritem = [r for r in routs if r.node is not None and r.node.kind == 'as']
    for r in routs:
        if r.node is None or r.node.kind not in ('as', 'slice'):
            O.bad('items-read', 'an occurrence is accepted without being an item', r.m.at)
    if not ritem and O.site.startswith('[T; 0]'):
        return
    if not ritem:
        O.bad('items-read', 'the reader does not read items', rf.at)
        return
    rty = tkey(t.D, ritem[0].node.ty)
    for w in writer_outs(w_field):
        O.n += 1
        obj = w.m.obj
        ns = [n for n in w.nodes if n.kind != 'none']
        if len(ns) == 1 and ns[0].kind == 'ser' and ns[0].how == 'slice':
            if w.m.obj is not Match(w, routs[0], {}).wobj(ns[0].src):
                O.bad('items-written', 'something other than the whole value is written as a blob', w.m.at)
            if not any(r.node is not None and r.node.kind == 'slice' for r in routs):
                O.bad('shape-agrees', 'a blob is written that the reader does not accept', w.m.at)
            continue
        if kind == 'opt':
            k = variant(w.m.e, w.o.st, obj)
            if k == 0:
                if ns:
                    O.bad('items-written', 'something is written for None', w.m.at)
                continue
            if k == 1 and not any(ev.kind == 'iter' for ev in all_events(w.o.events())):
                p = w.m.e.proj(obj, ('v', 1, 0))
                if not (len(ns) == 1 and ns[0].kind == 'ser' and Match(w, ritem[0], {}).wobj(ns[0].src) is p):
                    O.bad('items-written', 'the content of Some is not what is written', w.m.at)
                elif not reads_back(tkey(t.D, ns[0].ty), rty):
                    O.bad('types-agree', 'items are written as %s and read as %s' % (tkey(t.D, ns[0].ty), rty))
                continue

        def one(nodes, item, f):
            if len(nodes) != 1:
                O.bad('items-written', 'an item is written as %d values' % len(nodes), w.m.at)
                return
            n = nodes[0]
            if ismap and n.kind == 'struct':
                g = group(t, rty, None, rg)
                bm = t.reader(g, 'deserialize_body') if g else None
                M0 = Match(w, ritem[0], {})
                wp = body_product(t, w, n.ch, key)
                if bm is None or not isinstance(wp, dict):
                    O.bad('shape-agrees', 'entries are written as a struct that is not read back', w.m.at)
                    return
                comps = [x.strip() for x in rty[1:-1].split(',') if x.strip()]
                for r2 in reader_outs(bm):
                    if r2.node.kind != 'product' or r2.value.op != 'agg' or len(r2.value.a) - 2 != len(comps):
                        O.bad('shape-agrees', 'entries are not read back component by component', r2.m.at)
                        continue
                    for i, x in enumerate(r2.value.a[2:]):
                        ks = [k for k, (v, ty) in r2.node.fields.items() if v is x]
                        if len(ks) != 1 or ks[0] not in wp:
                            O.bad('every-field-read', 'component %d of an entry is not written' % i, w.m.at)
                            continue
                        src, ty, how = wp[ks[0]]
                        want = w.m.e.proj(item, ('f', i))
                        if not (src is want or src.op == 'deref' and src.a[0] is want):
                            O.bad('value-rebuilt', 'component %d of an entry is written from something else' % i, w.m.at)
                        if not reads_back(tkey(t.D, ty), comps[i]):
                            O.bad('types-agree', 'component %d is written as %s, read as %s' % (i, tkey(t.D, ty), comps[i]))
                return
            if n.kind != 'ser' or n.how != 'element':
                O.bad('items-written', 'an item is written as %s' % n.kind, w.m.at)
                return
            if ismap and n.src.op == 'agg':
                good = len(n.src.a) == 4 and all(is_item(w, n.src.a[2 + i], w.m.e.proj(item, ('f', i))) for i in (0, 1))
            else:
                good = is_item(w, n.src, item)
            if not good:
                O.bad('items-written', 'what is written is not the item', w.m.at)
            wt = tkey(t.D, n.ty)
            if not reads_back(wt.replace('&', ''), rty):
                O.bad('types-agree', 'items are written as %s and read as %s' % (wt, rty), w.m.at)
        iteration(O, w, obj, one)


# --------------------------------------------------------------------------- rejects

LIMIT_ERRS = {'UnknownVariant', 'UnknownField', 'RequiredFieldMissing', 'FieldOccursTooManyTimes',
              'FieldOccursTooFewTimes'}


def rejects(O, t, m, accessors):
    """errors a reader reports of its own accord cannot be about a value that was written"""
    for o in m.outs:
        if o.kind != 'ret':
            if m.name != 'finish':
                O.bad('accepts-written', 'the reader can panic: %s' % (o.why,), m.at)
            continue
        if m.result(o)[0] != 'err':
            continue
        w = own_err(m, o)
        if w is None or w[0] in LIMIT_ERRS or O.site.split()[0] in VALIDATES and w[0] == 'InvalidValueMsg':
            continue
        if failed_event(m, o) is not None:
            continue
        O.n += 1
        if not excused(t, m, o, accessors):
            O.bad('accepts-written', 'a value that can be written is refused with %s' % w[0], m.at)


def excused(t, m, o, accessors):
    f = o.st.f
    for ev in all_events(o.events()):
        if ev.kind == 'call' and ev.name in IDENT and ev.ret is not None:
            k = variant(m.e, o.st, ev.ret)
            good = 1 if 'from_u32' in ev.name else 0
            if k is not None and k != good:
                return True         # not text / not a character: never written
        x = ev.x or {}
        if ev.kind == 'de' and ev.name == 'finish' and x.get('ok'):
            for acc, bound in BOUNDED.items():
                if acc in accessors and x['v'].ty in INTW and \
                        f.assume(mk('lt', (x['v'], C(bound, x['v'].ty)), 'bool'), True) is None:
                    return True
    n = re.search(r'deserialize_array_(\d+)$', m.name)
    for ev in all_events(o.events()):
        if ev.kind == 'get' and ev.name in ('len', 'remaining'):
            want = C(int(n.group(1)), 'u64') if n else None
            if want is None and m.name == 'deserialize_slice':
                a = m.args[0]
                want = m.e.slice_len(a) if hasattr(m.e, 'slice_len') else None
            if want is not None and f.assume(mk('eq', (ev.ret, want), 'bool'), True) is None:
                return True
            if want is None and m.name == 'deserialize_slice':
                return True
    return False


# ------------------------------------------------------------------------------ check

def identity_conversions(ck, t):
    """SerializeAs hands over the whole of what the pointer / wrapper / array holds"""
    n = 0
    for key, m in sorted(t.sa.items()):
        O = Obj(ck, 'SerializeAs for ' + key, m.at)
        obj = m.e.deref(m.run.st0, m.args[0])
        calls = {}
        for o in m.outs:
            calls.update({ev.ret: ev for ev in all_events(o.events()) if ev.kind == 'call' and ev.ret is not None})
        for o in m.outs:
            if o.kind != 'ret':
                O.bad('converts-whole', 'can panic: %s' % o.why)
                continue
            v = o.val
            good = None
            for _ in range(12):
                if v is obj or v is m.args[0]:
                    good = True
                    break
                if v.op in ('deref', 'box', 'vslice'):
                    v = v.a[0]
                elif v.op == 'proj':
                    v = v.a[0]
                elif v.op == 'ref':
                    root, path = v.a[0]
                    if root[0] == 'h':
                        v = root[1]
                    else:
                        v = m.e.load(o.st, root, path)
                elif v.op == 'slice':
                    mm = re.search(r'; (\d+)\]$', key)
                    if not (is_c(v.a[1]) and cv(v.a[1]) == 0 and mm and is_c(v.a[2]) and cv(v.a[2]) == int(mm.group(1))):
                        good = False
                        break
                    root, path = v.a[0]
                    v = root[1] if root[0] == 'h' else m.e.load(o.st, root, path)
                elif v in calls and len(calls[v].args) == 1 and calls[v].name.split('::')[-1] in POINTERS:
                    v = calls[v].args[0]
                else:
                    break
            if not good:
                O.bad('converts-whole', 'what is serialised in place of the value is not its content: %s' % show(o.val)[:100])
        O.flush(('converts-whole',))
        n += 1
    return n


def delegates(ck, t):
    """a value serialised as another is serialised as it in the same role"""
    for kind, m in sorted(t.blanket.items()):
        O = Obj(ck, m.site, m.at)
        for w in writer_outs(m):
            ns = w.nodes
            want = {'body': 'body', 'field': 'field', 'element': 'element', 'slice': None}[kind]
            if len(ns) != 1 or not (ns[0].kind == 'body' if want == 'body' else
                                    ns[0].kind == 'ser' and ns[0].how == want):
                O.bad('same-role', 'the value is not handed on in the same role')
                continue
            src = ns[0].src
            b = src
            while b.op == 'deref':
                b = b.a[0]
            if not (b.op == 'pure' and b.a[0] == 'serialize_as' and m.from_self(b)):
                O.bad('same-role', 'what is handed on is not what serialize_as returns')
        O.flush(('same-role',))
    for kind in ('body', 'field', 'element'):
        if t.blanket and kind not in t.blanket:
            ck.fail('same-role', 'SerializeAs values', 'serialize_%s does not hand on' % kind)


# types whose constructor refuses some values on purpose (witness/types.rs)
VALIDATES = {'fourleaf::sa_witness::Checked'}
RULES = ('shape-agrees', 'types-agree', 'every-field-read', 'every-field-written', 'value-rebuilt', 'accepts-written')


def sa_target(t, rkey):
    """the type a wrapper is serialised as"""
    m = t.sa.get(rkey)
    if m is None:
        return None
    out = m.root['out']
    return tkey(t.D, out)


def rule_roundtrip(ck, t, skip=()):
    done = 0
    accs = {}
    for rkey in sorted(t.r):
        if rkey == 'Self' or rkey in skip:
            continue
        for style, g in sorted(t.r[rkey].items()):
            any_m = list(g.values())[0]
            ty = any_m.self_ty
            kind, extra = category(t.D, ty)
            O = Obj(ck, rkey + ('' if style in ('', 'STYLE') else ' ' + style.split('::')[-1]), any_m.at)
            O.kind = kind
            wkey, alias = rkey, set()
            blanket = False
            if rkey not in t.w:
                wk = sa_target(t, rkey)
                if rkey == '[u8]':
                    wk = 'u8[]'
                if wk is None:
                    O.bad('shape-agrees', 'no writer for this type')
                    O.flush(RULES)
                    continue
                wkey, blanket = wk, True
                alias.add((wk, rkey))
            relem = t.reader(g, 'deserialize_element')
            rbody = t.reader(g, 'deserialize_body')
            rfield = g.get('deserialize_field')
            if rfield is None:
                O.bad('shape-agrees', 'no field reader')
                O.flush(RULES)
                continue
            eouts, fouts, bouts = reader_outs(relem), reader_outs(rfield), reader_outs(rbody)
            if rkey == '[u8]':
                ws = writer_outs(t.w['u8']['slice']) if 'slice' in t.w.get('u8', {}) else []
                if not ws:
                    O.bad('shape-agrees', 'bytes are not written as a blob')
                match_single(O, t, ws, fouts, eouts, alias, rkey, g)
                for m in (relem, rfield, rbody):
                    rejects(O, t, m, ())
                O.flush(RULES)
                done += 1
                continue
            if kind == 'wrap':
                wrap_type(O, t, rkey, wkey, g, relem, rbody)
                O.flush(RULES)
                done += 1
                continue
            we, wb, wf = t.writer(wkey, 'element'), t.writer(wkey, 'body'), t.writer(wkey, 'field')
            if we is None:
                O.bad('shape-agrees', 'no writer for this type')
                O.flush(RULES)
                continue
            alias |= {('Self', rkey), (wkey, 'Self'), ('Self', 'Self')}
            weo, wbo, wfo = writer_outs(we), writer_outs(wb), writer_outs(wf)
            calls = {ev.name for w in weo + wbo for ev in all_events(w.o.events()) if ev.kind == 'call'}
            # elements
            if relem.root['path'].startswith(DE + '::'):
                default_element(O, relem)
                eouts = fouts
            match_single(O, t, weo, eouts, fouts, alias, rkey, g)
            # bodies
            match_body(O, t, wbo, bouts, alias, rkey, g)
            # fields
            if kind == 'one':
                for w in wfo:
                    ns = w.nodes
                    if w.m.root['path'].startswith(SER + '::'):
                        if not (len(ns) == 1 and ns[0].kind == 'ser' and ns[0].how == 'element' and
                                w.m.e is w.m.e and ns[0].src is w.m.obj):
                            O.bad('shape-agrees', 'by default a field is not written as an element', w.m.at)
                    elif len(ns) == 1 and ns[0].kind == 'ser' and ns[0].src is w.m.obj and \
                            tkey(t.D, ns[0].ty) == wkey:
                        pass
                    else:
                        match_single(O, t, [w], fouts, eouts, alias, rkey, g)
                match_single(O, t, weo, fouts, eouts, alias, rkey, g)
                O.flush(RULES)
            elif kind in ('opt', 'grow', 'vec', 'array'):
                collection(O, t, wkey, wf, kind, None, g, adt_path(t.D, ty) in MAPS)
                for m in (relem, rfield, rbody):
                    rejects(O, t, m, calls)
                O.flush(RULES + ('items-written', 'items-read'))
                done += 1
                continue
            for m in (relem, rfield, rbody):
                rejects(O, t, m, calls)
            O.flush(())
            done += 1
    return done


def default_element(O, m):
    for r in reader_outs(m):
        n = r.node
        if n is None or n.kind != 'asfield' or n.v is None or r.value is not n.v:
            O.bad('value-rebuilt', 'by default an element is not the field finished', m.at)


def wrap_type(O, t, rkey, wkey, g, relem, rbody):
    for name, kind, m in (('element', 'as', relem), ('body', 'body', rbody)):
        if m.root['path'].startswith(DE + '::'):
            O.bad('shape-agrees', '%s is not handed to the wrapped type' % name, m.at)
            continue
        for r in reader_outs(m):
            O.n += 1
            n = r.node
            if n is None or n.kind != kind:
                O.bad('shape-agrees', '%s is not handed to the wrapped type' % name, m.at)
                continue
            rt = tkey(t.D, n.ty)
            if not reads_back(wkey, rt):
                O.bad('types-agree', 'written as %s but read as %s' % (wkey, rt), m.at)
            if not (unwrapped(r.value, n.v) or wraps(m, r.o, r.value, n.v)):
                O.bad('value-rebuilt', 'the value is not the one read, wrapped', m.at)
        rejects(O, t, m, ())


def rule_bulk(ck, t):
    """element types travelling as blobs: writer and reader agree which, and the bytes are
    the items"""
    wr = {k for k, g in t.w.items() if k != 'Self' and 'slice' in g and writer_outs(g['slice'])}
    rd = set()
    names = sorted(n for n in t.r['Self'][''] if n in ('deserialize_vec', 'deserialize_slice') or
                   n.startswith('deserialize_array'))
    for key, gs in sorted(t.r.items()):
        for style, g in gs.items():
            s = g.get('serialized_as_slice')
            val = None
            if s is not None:
                vals = {(is_c(o.val) and bool(cv(o.val))) for o in s.outs if o.kind == 'ret' and o.val is not None}
                val = vals == {True}
                if len(vals) != 1:
                    ck.ob('bulk-agrees', key, False, 'serialized_as_slice is not constant', s.at)
                if val and key != 'Self':
                    rd.add(key)
            site = 'bulk ' + key
            O = Obj(ck, site, list(g.values())[0].at)
            for n in names:
                m = g.get(n)
                if m is None:
                    if val and key != 'Self':
                        O.bad('bulk-agrees', '%s does not read the blob' % n)
                    continue
                outs = [o for o in m.outs if o.kind == 'ret']
                none = [o for o in outs if m.result(o)[0] == 'none']
                if not val:
                    if len(none) != len(outs) or not outs:
                        O.bad('bulk-agrees', '%s reads a blob although items are not written as one' % n, m.at)
                    continue
                if none:
                    O.bad('bulk-agrees', '%s can leave the blob unread' % n, m.at)
                for r in reader_outs(m):
                    O.n += 1
                    nd = r.node
                    if nd is None or nd.kind != 'leaf' or nd.x != 'blob' or nd.v is None or \
                            getattr(nd, 'partial', False):
                        O.bad('bulk-value', '%s does not read the whole blob' % n, m.at)
                        continue
                    if n == 'deserialize_slice':
                        ad = m.e.addr_of(m.args[0])
                        a = m.args[0]
                        good = nd.ev is not None and any(
                            ev.name == 'read_exact' and ev.x.get('ok') and ev.x.get('into') is a
                            for ev in all_events(r.o.events()) if ev.kind == 'api')
                        if not good:
                            O.bad('bulk-value', '%s does not fill the destination' % n, m.at)
                    elif r.value is not nd.v:
                        O.bad('bulk-value', '%s does not return the bytes of the blob' % n, m.at)
                rejects(O, t, m, ())
            if s is not None or any(n in g for n in names):
                O.flush(('bulk-agrees', 'bulk-value') if val else ('bulk-agrees',))
    ck.ob('bulk-agrees', 'element types written as blobs', wr == rd,
          'items of %s are written as a blob, items of %s are read from one' % (sorted(wr), sorted(rd)))
    O = Obj(ck, 'bytes as a blob', '')
    for k in wr:
        for w in writer_outs(t.w[k]['slice']):
            ns = w.nodes
            if not (len(ns) == 1 and ns[0].kind == 'leaf' and ns[0].x == 'blob' and ns[0].arg is w.m.args[0]):
                O.bad('bulk-value', 'the blob written is not the items', w.m.at)
    O.flush(('bulk-value',))
