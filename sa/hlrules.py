"""Rules over the traces of (de)serialisation functions, shared by the checks of the
high-level layer.  They apply to any program whose functions implement the two traits:
the crate itself (built-in types) and a crate instantiating the retrofit macro."""
from delib import *

ERR_OPS = ('str', 'get', 'default')
READ_API = {'next_field', 'next_element', 'skip'}


def base(t):
    """the symbol an object is reached from"""
    for _ in range(60):
        if t.op in ('deref', 'proj'):
            t = t.a[0]
        elif t.op == 'upd':
            t = t.a[0]
        elif t.op in ('ref', 'slice'):
            root, path = t.a[0]
            if root[0] != 'h':
                return t
            t = root[1]
        elif t.op in ('vslice', 'box'):
            t = t.a[0]
        else:
            return t
    return t


def within(t, x, depth=0):
    """does term t mention x anywhere?"""
    if t is x:
        return True
    if depth > 25 or not isinstance(t, T):
        return False
    for y in t.a:
        if isinstance(y, T):
            if within(y, x, depth + 1):
                return True
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T) and within(z, x, depth + 1):
                    return True
                if isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T) and within(w, x, depth + 1):
                            return True
    return False


def variant(e, st, v):
    """index of the variant of enum value v on this path, or None"""
    if v.op == 'agg':
        return v.a[1]
    t = e.discr(v, 'isize')
    if is_c(t):
        return cv(t)
    return st.f.known.get(t)


def all_events(events):
    """every event, loops flattened, with its segment state"""
    for ev in events:
        if ev.kind == 'loop':
            for seg, sst in ev.x['segs']:
                yield from all_events(seg)
        else:
            yield ev


def fld(D, adt, name, vi=0):
    for t in D.tys:
        if t['k'] == 'adt' and t['path'] == adt:
            for i, f in enumerate(t['vs'][vi]['f']):
                if f[0] == name:
                    return i
    raise Anchor('field %s of %s not found' % (name, adt))


# ------------------------------------------------------------------ deserialising

class DeMethod(Method):
    """one function of a Deserialize implementation, with the roles of its arguments"""
    ROLES = {'deserialize_body': ('ctx', 'stream'), 'deserialize_field': ('accum', 'ctx', 'field'),
             'deserialize_element': ('ctx', 'field'), 'deserialize_vec': ('ctx', 'field'),
             'deserialize_slice': ('dst', 'ctx', 'field'), 'finish': ('accum', 'ctx'),
             'serialized_as_slice': ()}

    def __init__(self, ck, hl, r):
        Method.__init__(self, ck, hl, r)
        D = ck.D
        self.D = D
        roles = self.ROLES.get(self.name)
        if roles is None and self.name.startswith('deserialize_array'):
            roles = ('ctx', 'field')
        if roles is None:
            raise Anchor('unexpected method %s of Deserialize' % self.name)
        self.role = {}
        for ro, a in zip(roles, self.args):
            if ro == 'accum' and self.name == 'finish':
                self.role[ro] = a
            elif ro == 'dst':
                self.role[ro] = a
            else:
                self.role[ro] = self.e.deref(self.run.st0, a)
        self.ctx = self.role.get('ctx')
        self.field = self.role.get('field')
        self.stream = self.role.get('stream')
        self.self_ty = (r.get('trait_args') or [None])[0]
        self.style = (r.get('trait_args') or [None] * 3)[2] if len(r.get('trait_args') or []) > 2 else None
        self.self_s = D.s(self.self_ty) if isinstance(self.self_ty, int) else 'Self'
        self.prod = {}
        for o in self.outs:
            for ev in all_events(o.events()):
                x = ev.x or {}
                v = x.get('v')
                if x.get('ok') and v is not None and v.op == 'sym':
                    self.prod[v] = ev
        self.valix = fld(D, FIELD, 'value')
        self.tagix = fld(D, FIELD, 'tag')
        self.posix = fld(D, FIELD, 'pos')

    # ---- where objects come from
    def ctx_depth(self, t):
        """levels pushed on top of the method's own context, None for any other context"""
        n = 0
        while t.op == 'pure' and t.a[0] in ('ctx.push', 'ctx.push_tag'):
            n += 1
            t = t.a[1]
        return n if t is self.ctx else None

    def origin(self, t):
        """own-field / own-stream / sub (stream of own field) / child (field read from one of
        those streams) / childsub / other"""
        b = base(t)
        if self.field is not None and b is base(self.field):
            if t is self.field or (t.op == 'proj' and t.a[0] is self.field):
                return 'own-field'
            return 'sub'
        if self.stream is not None and b is base(self.stream):
            return 'own-stream' if t is self.stream else 'other'
        ev = self.prod.get(b)
        if ev is not None:
            if ev.name == 'next_field':
                return 'child' if self.origin(ev.x['self']) in ('own-stream', 'sub') else 'childchild'
            if ev.name in ('to_struct', 'to_enum'):
                o = self.origin(ev.x['self'])
                return {'own-field': 'sub', 'child': 'childsub'}.get(o, 'other')
            if ev.name == 'to_blob':
                o = self.origin(ev.x['self'])
                return {'own-field': 'blob', 'child': 'childblob'}.get(o, 'other')
        return 'other'

    def child_of(self, t):
        """the child field an object belongs to"""
        b = base(t)
        ev = self.prod.get(b)
        if ev is None:
            return None
        if ev.name == 'next_field':
            return b
        if ev.name in ('to_struct', 'to_enum', 'to_blob'):
            return self.child_of(ev.x['self'])
        return None

    def result(self, o):
        """'ok' / 'err' / 'none', payload of an outcome (Option<Result> and Result alike)"""
        v = o.val
        if v is None:
            return None, None
        if v.op == 'agg' and v.a[0] == OPTION:
            if v.a[1] == 0:
                return 'none', None
            v = v.a[2]
        if v.op == 'agg' and v.a[0] == RESULT:
            return ('ok', 'err')[v.a[1]], v.a[2] if len(v.a) > 2 else UNIT
        k = variant(self.e, o.st, v)
        if k is None:
            return None, v
        return ('ok', 'err')[k], self.e.proj(v, ('v', k, 0))

    def value_variant(self, st, field):
        k = variant(self.e, st, self.e.proj(field, ('f', self.valix)))
        return None if k is None else variant_name(self.D, VALUE, k)


class Problem(Exception):
    def __init__(self, rule, detail, ev=None):
        Exception.__init__(self, detail)
        self.rule = rule
        self.ev = ev


class Walk:
    """one outcome of a deserialising function replayed through the typestate of its
    streams and fields: every field read is dealt with once before the next one is read,
    every struct entered is read to its end, nothing is read after that or after a failure"""

    def __init__(self, m, o):
        self.m, self.o = m, o
        self.problems = []
        self.streams = {}       # stream term -> open / closed
        self.taken = {}         # field term -> how it was dealt with
        self.child = None       # field read and not dealt with yet
        self.failed = None      # event that failed
        self.fields = []        # (field term, how, event, state) for every child field
        if m.stream is not None:
            self.streams[m.stream] = 'open'
        self.walk(o.events(), o.st, True)
        self.end()

    def bad(self, rule, detail, ev=None):
        self.problems.append((rule, detail, ev.site if ev is not None else None))

    def snapshot(self):
        return (dict(self.streams), dict(self.taken), self.child, self.failed)

    def restore(self, s):
        self.streams, self.taken, self.child, self.failed = dict(s[0]), dict(s[1]), s[2], s[3]

    def walk(self, events, st, last=False):
        for ev in events:
            if ev.kind == 'loop':
                s0 = self.snapshot()
                for seg, sst in ev.x['segs']:
                    self.walk(seg, sst)
                    if self.failed is not None:
                        self.bad('failure-is-final', 'the loop goes on after %s failed' % self.failed.name, self.failed)
                    self.settle(ev)
                    if self.streams != s0[0] or self.taken.get(self.m.field) != s0[1].get(self.m.field):
                        self.bad('whole-value', 'an iteration finishes a struct or field it did not start', ev)
                    self.restore(s0)
                continue
            self.step(ev, st)

    def settle(self, ev):
        if self.child is not None:
            self.bad('each-field-once', 'a field is read from the stream but neither given to a deserialiser '
                     'nor skipped before reading on', ev)
            self.child = None

    def take(self, f, how, ev):
        if f is self.child:
            self.child = None
        elif f in self.taken and self.taken[f] not in ('open',):
            self.bad('each-field-once', 'the same field is consumed twice (%s, then %s)' % (self.taken[f], how), ev)
        self.taken[f] = how

    def close(self, s, ev):
        if s not in self.streams:
            # stream reached through a field without to_struct()/to_enum()
            self.streams[s] = 'open'
        if self.streams[s] == 'closed':
            self.bad('whole-value', 'the stream is used after the end of the struct', ev)
        self.streams[s] = 'closed'

    def owner(self, s):
        """the field a struct stream belongs to"""
        m = self.m
        o = m.origin(s)
        if o == 'sub':
            return m.field
        if o == 'childsub':
            for f in list(self.taken) + ([self.child] if self.child is not None else []):
                if f is not m.field and base(f) is m.child_of(s):
                    return f
        return None

    def step(self, ev, st):
        m, x = self.m, ev.x or {}
        if ev.kind in ERR_OPS or ev.kind not in ('api', 'de', 'ctx'):
            return
        if self.failed is not None:
            if ev.kind == 'ctx':
                return
            self.bad('failure-is-final', '%s is called after %s failed' % (ev.name, self.failed.name), ev)
            return
        if ev.kind == 'api':
            self.api(ev, x, st)
        elif ev.kind == 'de':
            self.de(ev, x, st)
        if x.get('ok') is False:
            self.failed = ev

    def api(self, ev, x, st):
        m = self.m
        s = x['self']
        o = m.origin(s)
        if x['type'] in ('Stream',) and ev.name == 'next_field':
            if o not in ('own-stream', 'sub', 'childsub'):
                self.bad('own-input', 'fields are read from a stream other than the value being deserialised', ev)
                return
            self.settle(ev)
            if self.streams.setdefault(s, 'open') == 'closed':
                self.bad('whole-value', 'the stream is read past the end of the struct', ev)
            if x.get('ok'):
                k = variant(m.e, st, x['v'])
                if k == 1:
                    self.child = m.e.proj(x['v'], ('v', 1, 0))
                elif k == 0:
                    self.close(s, ev)
                    f = self.owner(s)
                    if f is not None:
                        self.taken[f] = 'struct'
                else:
                    self.bad('whole-value', 'the result of next_field is not examined', ev)
            return
        if ev.name == 'skip' and x['type'] in ('Field', 'Value'):
            if x.get('ok'):
                f = s if x['type'] == 'Field' else s.a[0] if s.op == 'proj' else s
                self.take(f, 'skip', ev)
            return
        if x['type'] == 'Value':
            if o not in ('own-field', 'child'):
                self.bad('own-input', '%s is applied to something other than the field at hand' % ev.name, ev)
                return
            if x.get('ok'):
                f = s.a[0]
                if ev.name in ('to_struct', 'to_enum'):
                    self.take(f, 'open', ev)
                    v = x['v']
                    p = v if ev.name == 'to_struct' else m.e.proj(v, ('f', 1))
                    self.streams[m.e.deref(st, p)] = 'open'
                else:
                    if self.taken.get(f) is None or f is self.child:
                        self.take(f, ev.name, ev)
            return
        if x['type'] == 'Blob':
            if o not in ('blob', 'childblob', 'sub', 'own-field'):
                self.bad('own-input', '%s is applied to a blob other than the one in the field' % ev.name, ev)
            return
        if x['type'] in ('Stream', 'Field', 'Element'):
            self.bad('own-input', 'unexpected operation %s::%s while deserialising' % (x['type'], ev.name), ev)

    def de(self, ev, x, st):
        m = self.m
        if ev.name == 'finish':
            return
        if ev.name == 'body':
            s = x['stream']
            o = m.origin(s)
            if o not in ('own-stream', 'sub', 'childsub'):
                self.bad('own-input', 'a body is read from a stream other than the value being deserialised', ev)
                return
            self.settle(ev) if o != 'childsub' else None
            if self.streams.setdefault(s, 'open') == 'closed':
                self.bad('whole-value', 'a body is read after the end of the struct', ev)
            if x.get('ok'):
                self.streams[s] = 'closed'
                f = self.owner(s)
                if f is not None:
                    if f is self.child:
                        self.child = None
                    self.taken[f] = 'struct'
            return
        f = x['field']
        o = m.origin(f)
        if o not in ('own-field', 'child'):
            self.bad('own-input', 'a field other than the one at hand is deserialised', ev)
            return
        if x.get('ok') and not x.get('none'):
            if f is not self.child and self.taken.get(f) is not None:
                self.bad('each-field-once', 'the same field is deserialised twice', ev)
            self.take(f, ev.name, ev)

    def end(self):
        m, o = self.m, self.o
        if o.kind != 'ret':
            return
        r, v = m.result(o)
        self.res, self.payload = r, v
        if self.failed is not None:
            if r != 'err':
                self.bad('failure-is-final', '%s fails but the result is not an error' % self.failed.name, self.failed)
            return
        if m.name in ('finish', 'serialized_as_slice'):
            return
        if r == 'ok':
            if self.child is not None:
                self.bad('each-field-once', 'success although a field read from the stream was neither deserialised '
                         'nor skipped')
            for s, k in self.streams.items():
                if k != 'closed':
                    self.bad('whole-value', 'success before the end of the struct was reached (%s)' % show(s)[:60])
            if m.field is not None:
                h = self.taken.get(m.field)
                if h is None:
                    vv = m.value_variant(o.st, m.field)
                    if vv not in ('Integer', 'Blob'):
                        self.bad('whole-value', 'success without consuming the field')
                elif h == 'open':
                    self.bad('whole-value', 'success before the end of the struct was reached')
        elif r == 'none':
            for ev in all_events(o.events()):
                if ev.kind in ('api', 'ctx') or (ev.kind == 'de' and not (ev.x or {}).get('none')):
                    self.bad('whole-value', '"not handled" is reported after the field was used', ev)
        elif r is None:
            self.bad('whole-value', 'the outcome is not a recognisable result: %s' % show(o.val)[:80])


def de_all(ck, D=None):
    """all deserialising functions of the program, analysed once per process"""
    D = D or ck.D
    k = id(D)
    if k not in _de:
        hl = HL(D)
        _de[k] = [DeMethod(ck, hl, r) for r in de_methods(D)]
    else:
        for m in _de[k]:
            ck.analysed(m.site, len(m.outs))
    return _de[k]


_de = {}


def located(m, t):
    """is t the rendering of the method's own context (or of one it pushed)?"""
    return t.op == 'pure' and t.a[0] == 'to_string' and m.ctx_depth(t.a[1]) is not None


def const_of(f, t):
    """value of integer term t when the path fixes it"""
    if is_c(t):
        return cv(t)
    k = f.known.get(t)
    if k is not None:
        return k
    b = f.rbits(t) if t.ty in INTS else None
    if b is not None and all(x in (0, 1) for x in b):
        return sum(x << i for i, x in enumerate(b))
    if t.ty in ('u8', None):
        for k in range(256):
            c = C(k, t.ty or 'u8')
            if f.entails_eq(t, c):
                return k
    elif t.ty in INTS:
        for k in range(64):
            if f.entails_eq(t, C(k, t.ty)):
                return k
    return None


class Use:
    """what one path does with one field read from the struct being deserialised"""

    def __init__(self, field, st):
        self.field, self.st = field, st
        self.pos = None
        self.name = None
        self.unknown = False    # configuration consulted
        self.how = None         # de-method / skip
        self.ev = None
        self.tag = None
        self.failed = False


def uses(m, events, st, acc=None, prefix=()):
    """every child field on every path: list of Use (one per loop iteration path plus the
    final partial iteration)"""
    res = [] if acc is None else acc
    cur = {}
    for ev in events:
        if ev.kind == 'loop':
            for seg, sst in ev.x['segs']:
                uses(m, seg, sst, res)
            continue
        x = ev.x or {}
        if ev.kind == 'api' and ev.name == 'next_field' and x.get('ok') and variant(m.e, st, x['v']) == 1:
            f = m.e.proj(x['v'], ('v', 1, 0))
            u = Use(f, st)
            u.tag = m.e.proj(f, ('f', m.tagix), 'u8')
            cur[base(f)] = u
            res.append(u)
            continue
        if ev.kind == 'ctx' and ev.name == 'unknown_field':
            b = base(x['objs'][1][0]) if len(x['objs']) > 1 else None
            if b in cur:
                cur[b].unknown = True
                cur[b].uctx = x['ctx']
                cur[b].failed |= x.get('ok') is False
            continue
        if ev.kind == 'ctx' and ev.name in ('push', 'push_tag'):
            for u in cur.values():
                if any(within(o[0], u.field) for o in x['objs'][1:] if o[0] is not None):
                    u.pushed = True
                    u.failed |= x.get('ok') is False
            continue
        t = x.get('field') if ev.kind == 'de' else x.get('self') if ev.kind == 'api' else \
            x.get('stream') if ev.kind == 'de' else None
        if t is None and ev.kind == 'de':
            t = x.get('stream')
        if t is None:
            continue
        b = m.child_of(t)
        u = cur.get(b)
        if u is None:
            continue
        if x.get('none'):
            continue
        if u.how is None or ev.kind == 'de':
            u.how = ev.name if ev.kind == 'de' else ev.name
            u.kind = ev.kind
            u.ev = ev
        u.failed |= x.get('ok') is False
    return res


# ------------------------------------------------------------------------ rules

def rule_consume(ck, m, tag=''):
    probs = {}
    n = 0
    for o in m.outs:
        if o.kind != 'ret' or m.name == 'serialized_as_slice':
            continue
        n += 1
        w = Walk(m, o)
        for r, d, at in w.problems:
            if r != 'failure-is-final':
                probs.setdefault(r, (d, at))
    for r in ('own-input', 'each-field-once', 'whole-value'):
        if n:
            ck.ob(r, m.site, r not in probs, *(probs.get(r) or ('', None)))


def derr(D, name):
    for t in D.tys:
        if t['k'] == 'adt' and t['path'] == DERR:
            for i, v in enumerate(t['vs']):
                if v['name'] == name:
                    return i
    raise Anchor('error %s not found' % name)


def rule_errors(ck, m):
    D = m.D
    final, lost, unloc = None, None, None
    n = 0
    for o in m.outs:
        if o.kind != 'ret' or m.name == 'serialized_as_slice':
            continue
        n += 1
        w = Walk(m, o)
        for r, d, at in w.problems:
            if r == 'failure-is-final':
                final = final or (d, at)
        if getattr(w, 'res', None) != 'err':
            continue
        v = w.payload
        at = w.failed.site if w.failed is not None else None
        if v.op == 'agg' and v.a[0] == DERR:
            name = variant_name(D, DERR, v.a[1])
            args = v.a[2:]
            if not args or not located(m, args[0]):
                unloc = unloc or ('the %s error does not carry the path of this value' % name, at)
            if w.failed is not None:
                fe = w.failed.x['err']
                if w.failed.kind == 'api' and not (name == 'Stream' and len(args) > 1 and within(args[1], fe)):
                    lost = lost or ('%s fails but the error reported is %s without that failure'
                                    % (w.failed.name, name), at)
                elif w.failed.kind == 'ctx' and not within(v, fe):
                    lost = lost or ('the error of Context::%s is replaced' % w.failed.name, at)
                elif w.failed.kind == 'de' and name != 'FieldOccursTooManyTimes' and not within(v, fe):
                    lost = lost or ('the error of a nested deserialiser is replaced by %s' % name, at)
        elif w.failed is not None:
            if v is not w.failed.x['err']:
                lost = lost or ('the error returned is not the one %s failed with' % w.failed.name, at)
            if w.failed.kind == 'api':
                unloc = unloc or ('the stream error is returned without the path of this value', at)
        else:
            unloc = unloc or ('an error of unknown origin is returned: %s' % show(v)[:60], at)
    if n:
        ck.ob('failure-is-final', m.site, final is None, *(final or ('', None)))
        ck.ob('error-preserved', m.site, lost is None, *(lost or ('', None)))
        ck.ob('error-located', m.site, unloc is None, *(unloc or ('', None)))


def rule_nest(ck, m):
    """children of a value are deserialised one level below it, with its own limits"""
    bad = None
    n = 0
    for o in m.outs:
        for ev in all_events(o.events()):
            x = ev.x or {}
            if ev.kind == 'ctx' and ev.name == 'top':
                bad = bad or ('a fresh top-level context is created while deserialising', ev.site)
            c = x.get('ctx')
            if ev.kind in ('de', 'ctx') and c is not None:
                n += 1
                d = m.ctx_depth(c)
                if d is None:
                    bad = bad or ('%s is given a context that is not derived from the one at hand' % ev.name, ev.site)
                    continue
                if ev.kind == 'de' and ev.name != 'finish':
                    t = x.get('field') if x.get('field') is not None else x.get('stream')
                    og = m.origin(t) if t is not None else None
                    if og in ('child', 'childsub', 'childchild') and d < 1:
                        bad = bad or ('a nested field is deserialised without entering a deeper level', ev.site)
    ck.ob('one-level-per-nesting', m.site, bad is None, *(bad or ('', None)))
    return n


def rule_unknown(ck, m):
    """fields no part of the value claims"""
    res = {}

    def bad(r, d, at=None):
        res.setdefault(r, (d, at))
    groups, seen = {}, 0
    for o in m.outs:
        if o.kind != 'ret':
            continue
        us = uses(m, o.events(), o.st)
        if not us:
            continue
        seen += len(us)
        # the fields of each variant of an enum are a struct of their own
        d = None
        for ev in all_events(o.events()):
            if ev.kind == 'api' and ev.name == 'to_enum' and ev.x.get('ok'):
                d = disc_const(o.st.f, m.e.proj(ev.x['v'], ('f', 0), 'u64'))
        groups.setdefault(d, []).extend(us)
    if not seen:
        return None
    for d, allu in sorted(groups.items(), key=lambda x: (x[0] is None, x[0])):
        unknown_group(m, allu, bad, '' if d is None else ' of variant %d' % d)
    for r in ('unknown-needs-leave', 'known-is-known', 'unknown-skipped', 'unknown-kept', 'one-owner'):
        ck.ob(r, m.site, r not in res, *(res.get(r) or ('', None)))
    return groups


def unknown_group(m, allu, bad, which):
    table = {}
    catchall = skipped = False
    for u in allu:
        u.k = const_of(u.st.f, u.tag)
        if u.how is not None and u.kind == 'de':
            if u.k is not None:
                acc = u.ev.x.get('accum_addr') if u.ev.name == 'field' else ('direct', u.ev.name)
                table.setdefault(u.k, set()).add(acc)
            else:
                catchall = True
    for u in allu:
        if u.how == 'skip' and u.kind == 'api':
            if not u.unknown:
                bad('unknown-needs-leave', 'a field%s is skipped without asking whether unknown fields are allowed' % which,
                    u.ev.site)
            if not u.failed:
                skipped = True
        if u.unknown:
            d = m.ctx_depth(u.uctx)
            if d is None:
                bad('unknown-needs-leave', 'the configuration consulted is not the one at hand')
            if u.how is not None and u.kind == 'de':
                bad('known-is-known', 'a field a deserialiser claims is reported as unknown', u.ev.site)
            if u.how is None and not u.failed:
                bad('unknown-skipped', 'an ignored unknown field is left in the stream')
        if u.how == 'skip' or u.unknown or (u.how is not None and u.kind == 'de' and u.k is None):
            for k in table:
                if not refuted(u.st.f, mk('eq', (u.tag, C(k, 'u8')), 'bool')):
                    bad('known-is-known', 'a field with the known tag %d%s can be treated as unknown' % (k, which),
                        u.ev.site if u.ev is not None else None)
    if catchall and any(u.how == 'skip' or u.unknown for u in allu):
        bad('unknown-kept', 'a field%s is skipped or refused although the type keeps all other fields' % which)
    for k, accs in table.items():
        if len(accs) > 1:
            bad('one-owner', 'tag %d%s is handed to different components' % (k, which))
    owners = {}
    for k, accs in table.items():
        for a in accs:
            if a in owners and a[0] != 'direct':
                bad('one-owner', 'tags %d and %d%s feed the same component' % (owners[a], k, which))
            owners[a] = k
    if not skipped and not catchall:
        bad('unknown-skipped', 'no path accepts a field%s with an unknown tag, even when they are to be ignored' % which)


GROW = {'push', 'push_back', 'insert', 'append', 'extend', 'push_front', 'extend_from_slice', 'entry', 'replace',
        'from_iter', 'collect', 'resize', 'insert_full', 'or_insert', 'or_insert_with', 'extend_from_within',
        'push_within_capacity', 'splice', 'get_or_insert_with'}
COLL = ('alloc::vec::Vec', 'alloc::collections::', 'std::collections::')


def growth(m, ev):
    """does this event add to a collection? -> name or None"""
    if ev.kind == 'push':
        return 'push'
    if ev.kind != 'call':
        return None
    n = ev.name.split('::')[-1]
    x = m.D.insts[ev.inst] if ev.inst is not None else None
    p = (x or {}).get('path') or ev.name
    if n in GROW and (p.startswith(COLL) or p.startswith(tuple('<' + c for c in COLL)) or 'Extend' in p
                      or 'iter::' in p):
        return n
    return None


def rule_collect(ck, m):
    """everything added to a collection is charged first"""
    bad = None
    n = 0
    for o in m.outs:
        credit = 0
        paths = [(o.events(), o.st)]
        while paths:
            evs, st = paths.pop()
            credit = 0
            for ev in evs:
                if ev.kind == 'loop':
                    for seg, sst in ev.x['segs']:
                        paths.append((seg, sst))
                    continue
                x = ev.x or {}
                if ev.kind == 'ctx' and ev.name == 'collect' and x.get('ok'):
                    if m.ctx_depth(x['ctx']) is None:
                        bad = bad or ('items are charged to a context other than the one at hand', ev.site)
                    a = x['objs'][1][0]
                    credit += cv(a) if is_c(a) else 0
                if ev.kind == 'ctx' and ev.name == 'collect' and not is_c(x['objs'][1][0]):
                    bad = bad or ('the number of items charged is not the number added', ev.site)
                g = growth(m, ev)
                if g is not None:
                    n += 1
                    credit -= 1
                    if credit < 0:
                        bad = bad or ('an item is added to a collection without being charged against max_collect '
                                      'first', ev.site)
            if credit > 0 and o.kind == 'ret' and m.result(o)[0] == 'ok':
                bad = bad or ('more is charged against max_collect than is added to a collection', m.at)
    if n or m.name == 'deserialize_field':
        ck.ob('collection-charged', m.site, bad is None, *(bad or ('', None)))
    return n


def blob_size_of(p, b):
    while p.op in ('icast', 'cast'):
        p = p.a[0]
    return p.op == 'pure' and p.a[0] in ('get:Blob::len', 'get:Blob::remaining') and base(p.a[1]) is base(b)


BULK = {'read_fully', 'read_or_trunc', 'read_to_end', 'read_to_string'}


def same_blob(a, b):
    return base(a) is base(b)


def rule_blob(ck, m):
    """every blob copied into a new buffer is charged with its full length first, and
    nothing else is charged"""
    bad = None
    n = 0
    for o in m.outs:
        paths = [(o.events(), o.st)]
        while paths:
            evs, st = paths.pop()
            paid = []
            for ev in evs:
                if ev.kind == 'loop':
                    for seg, sst in ev.x['segs']:
                        paths.append((seg, sst))
                    continue
                x = ev.x or {}
                if ev.kind == 'ctx' and ev.name == 'blob' and x.get('ok'):
                    if m.ctx_depth(x['ctx']) is None:
                        bad = bad or ('bytes are charged to a context other than the one at hand', ev.site)
                    paid.append([x['objs'][1][0], ev.site])
                if ev.kind == 'api' and x.get('type') == 'Blob' and (ev.name in BULK or ev.name == 'read'):
                    n += 1
                    b = x['self']
                    hit = [p for p in paid if blob_size_of(p[0], b)]
                    if not hit:
                        bad = bad or ('a blob is copied into a new buffer without its length being charged '
                                      'against max_blob first', ev.site)
                    else:
                        paid.remove(hit[0])
                    lim = x['objs'][1][0] if len(x['objs']) > 1 else None
                    if lim is not None and ev.name == 'read_fully' and not (
                            blob_size_of(lim, b) or within(lim, m.ctx) or (is_c(lim) and cv(lim) == 2 ** 64 - 1)):
                        bad = bad or ('a blob within max_blob may be refused', ev.site)
            if paid and o.kind == 'ret' and m.result(o)[0] == 'ok':
                bad = bad or ('bytes are charged against max_blob although no blob is copied into a new buffer',
                              paid[0][1])
    if n or m.field is not None:
        ck.ob('blob-charged', m.site, bad is None, *(bad or ('', None)))
    return n


def rule_variants(ck, m):
    """enum discriminants: a known one selects its body, any other is UnknownVariant (or is
    kept by the catch-all of the type)"""
    D = m.D
    res = {}
    known, open_paths = set(), []
    n = 0
    for o in m.outs:
        if o.kind != 'ret':
            continue
        for ev in all_events(o.events()):
            x = ev.x or {}
            if ev.kind == 'api' and ev.name == 'to_enum' and x.get('ok'):
                n += 1
                d = m.e.proj(x['v'], ('f', 0), 'u64')
                k = disc_const(o.st.f, d)
                r, v = m.result(o)
                if k is not None:
                    known.add(k)
                    if v is not None and is_err_variant(D, v, DERR, 'UnknownVariant'):
                        res.setdefault('variant-known', ('discriminant %d is refused' % k, ev.site))
                    continue
                open_paths.append((o, d, ev, r, v))
    for o, d, ev, r, v in open_paths:
        for k in known:
            if not refuted(o.st.f, mk('eq', (d, C(k, 'u64')), 'bool')):
                res.setdefault('variant-known', ('the known discriminant %d can be treated as unknown' % k, ev.site))
        if r == 'err' and v.op == 'agg' and v.a[0] == DERR:
            name = variant_name(D, DERR, v.a[1])
            w = Walk(m, o)
            if w.failed is None and not (name == 'UnknownVariant' and located(m, v.a[2]) and v.a[3] is d):
                res.setdefault('variant-unknown', ('an unknown discriminant is reported as %s' % name, ev.site))
        elif r == 'ok' and not within(v, d) and not (
                m.name == 'deserialize_field' and within(m.e.deref(o.st, m.args[0]), d)):
            res.setdefault('variant-unknown', ('an unknown discriminant is accepted and forgotten', ev.site))
    if n:
        for rl in ('variant-known', 'variant-unknown'):
            ck.ob(rl, m.site, rl not in res, *(res.get(rl) or ('', None)))
        if m.name == 'deserialize_element':
            ck.ob('variant-total', m.site, bool(open_paths), 'no outcome for an unknown discriminant', m.at)
    return known if n else None


def disc_const(f, t):
    k = f.known.get(t)
    if k is not None:
        return k
    if is_c(t):
        return cv(t)
    for k in range(0, 4):
        if f.entails_eq(t, C(k, t.ty)):
            return k
    cand = set()
    for r in f.rows:
        co = dict(r[0])
        if len(co) == 1 and abs(co.get(t, 0)) == 1:
            cand.add(abs(r[1]))
    for x in f.known:
        if x.op == 'eq' and any(y is t for y in x.a):
            cand |= {cv(y) for y in x.a if is_c(y)}
    for k in sorted(cand):
        if f.entails_eq(t, C(k, t.ty)):
            return k
    return None


def rule_label(ck, m):
    """the level entered for a nested field is labelled with that field: its position, and
    its tag or a name of its own"""
    bad = None
    n = 0
    names = {}

    def scan(events, st, pushes):
        nonlocal bad, n
        for ev in events:
            if ev.kind == 'loop':
                for seg, sst in ev.x['segs']:
                    scan(seg, sst, dict(pushes))
                continue
            x = ev.x or {}
            if ev.kind == 'ctx' and ev.name in ('push', 'push_tag') and x.get('ok'):
                pushes[x['v']] = ev
            if ev.kind == 'de' and ev.name != 'finish' and x.get('ctx') is not None:
                t = x.get('field') if x.get('field') is not None else x.get('stream')
                og = m.origin(t)
                p = pushes.get(x['ctx'])
                if p is not None and og in ('own-field', 'own-stream', 'sub'):
                    # a component that stands for the whole value
                    n += 1
                    q = p.x['objs'][3 if p.name == 'push_tag' else 2][0]
                    if not (is_pos_of_field(m, q) if og == 'own-field' else is_pos_of_stream(m, q)):
                        bad = bad or ('a component standing for the whole value is not labelled with the '
                                      'position of the value', p.site)
                if og not in ('child', 'childsub'):
                    continue
                if p is None:
                    continue        # one-level-per-nesting reports it
                n += 1
                f = m.child_of(t)
                fv = t if x.get('field') is not None else None
                o = p.x['objs']
                if fv is not None and const_of(st.f, m.e.proj(t, ('f', m.tagix), 'u8')) is None:
                    rest.add(x.get('accum_addr'))
                if p.name == 'push_tag':
                    okk = is_proj_of(o[2][0], f, m.tagix) and is_proj_of(o[3][0], f, m.posix)
                    if not okk:
                        bad = bad or ('a nested field is not labelled with its tag and position', p.site)
                else:
                    if not is_proj_of(o[2][0], f, m.posix):
                        bad = bad or ('a nested field is not labelled with its position', p.site)
                    nm = show(o[1][0])
                    tg = const_of(st.f, m.e.proj(t, ('f', m.tagix), 'u8')) if fv is not None else None
                    if tg is not None and names.setdefault(nm, tg) != tg:
                        bad = bad or ('fields %d and %d have the same label' % (names[nm], tg), p.site)
            if ev.kind == 'de' and ev.name == 'finish':
                p = pushes.get(x['ctx'])
                if p is not None and m.stream is not None:
                    q = p.x['objs'][3 if p.name == 'push_tag' else 2][0]
                    if not is_pos_of_stream(m, q):
                        bad = bad or ('a missing field is not located at the position reached in the struct', p.site)
                if p is not None and p.name == 'push' and names and m.stream is not None:
                    fin.append((show(p.x['objs'][1][0]), ev.site))
    fin = []
    rest = set()
    for o in m.outs:
        fin.clear()
        rest.clear()
        scan(o.events(), o.st, {})
        seen = set()
        for nm, at in fin:
            if nm not in names and rest:
                rest.pop()      # the component for all other fields has a label of its own
            elif nm not in names and len(names) > 1:
                bad = bad or ('a missing field is reported under a label no field has', at)
            if nm in seen:
                bad = bad or ('two missing fields are reported under the same label', at)
            seen.add(nm)
    if n:
        ck.ob('level-labelled', m.site, bad is None, *(bad or ('', None)))
    return n


def is_pos_of_field(m, t):
    while t.op in ('icast', 'cast'):
        t = t.a[0]
    return t.op == 'proj' and t.a[1] == ('f', m.posix) and m.origin(t.a[0]) == 'own-field'


def is_pos_of_stream(m, t):
    """what pos() says of the stream the value is read from"""
    while t.op in ('icast', 'cast'):
        t = t.a[0]
    return t.op == 'pure' and t.a[0] == 'get:Stream::pos' and m.origin(t.a[1]) in ('own-stream', 'sub')


def is_proj_of(t, b, ix):
    while t.op in ('icast', 'cast'):
        t = t.a[0]
    return t.op == 'proj' and t.a[1] == ('f', ix) and base(t) is b
