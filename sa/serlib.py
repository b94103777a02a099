"""Rules over the traces of serialising functions: what each one writes is a piece of a
well-formed document, whatever the value."""
from hlrules import *

WRITES1 = {'write_null', 'write_u8', 'write_i8', 'write_u16', 'write_i16', 'write_u32', 'write_i32', 'write_u64',
           'write_i64', 'write_usize', 'write_isize', 'write_bool', 'write_blob_data'}
OPENS = {'write_struct', 'write_enum'}
NEUTRAL = {'write_padding', 'pad_to_align'}
UNKF = 'fourleaf::unknown::UnknownFields'


class SerMethod(Method):
    ROLES = {'serialize_body': ('self', 'dst'), 'serialize_field': ('self', 'dst', 'tag'),
             'serialize_element': ('self', 'dst', 'tag'), 'serialize_slice': ('self', 'dst', 'tag')}

    def __init__(self, ck, hl, r):
        Method.__init__(self, ck, hl, r)
        D = ck.D
        self.D = D
        roles = self.ROLES.get(self.name)
        if roles is None:
            raise Anchor('unexpected method %s of Serialize' % self.name)
        self.role = dict(zip(roles, self.args))
        self.tag = self.role.get('tag')
        self.dst = self.e.deref(self.run.st0, self.role['dst'])
        self.self_ty = (r.get('trait_args') or [None])[0]
        self.self_path = None
        if isinstance(self.self_ty, int) and D.tys[self.self_ty]['k'] == 'adt':
            self.self_path = D.tys[self.self_ty]['path']
        self.link = {}
        for o in self.outs:
            loop_links(o.events(), self.link)
        if self.name == 'serialize_slice':
            self.obj = self.args[0]
        else:
            self.obj = self.e.deref(self.run.st0, self.args[0])

    result = DeMethod.result

    def base_of(self, t):
        """like base, looking through the accessors and iterators applied to the value"""
        for _ in range(40):
            t = self.link.get(t, t)
            b = base(t)
            b = self.link.get(b, b)
            if b.op == 'pure' and len(b.a) > 1 and isinstance(b.a[1], T):
                t = b.a[1]
                continue
            if b is t or b.op == 'sym':
                return b
            t = b
        return t

    def from_self(self, t):
        """is the object reached from the value being serialised?"""
        return self.base_of(t) is self.base_of(self.args[0])


def loop_links(events, d):
    """what the cells a loop changes held when it was entered"""
    for ev in events:
        if ev.kind == 'loop':
            for r, p, part, v0, nv in ev.x['syms']:
                d[nv] = v0
            for seg, sst in ev.x['segs']:
                loop_links(seg, d)


class SerWalk:
    """one outcome of a serialising function replayed through the document grammar"""

    def __init__(self, m, o):
        self.m, self.o = m, o
        self.problems = []
        self.depth = 0
        self.top = 0            # pairs written at the level the function was called at
        self.many = False       # a number of pairs not fixed by the path
        self.closed = 0         # how often the struct the function writes the body of was ended
        self.failed = None
        self.wrote = 0
        self.res = None
        self.walk(o.events(), o.st)
        self.end()

    def bad(self, rule, detail, ev=None):
        self.problems.append((rule, detail, ev.site if ev is not None else self.m.at))

    def walk(self, events, st):
        for ev in events:
            if ev.kind == 'loop':
                for seg, sst in ev.x['segs']:
                    s = (self.depth, self.top, self.many, self.closed, self.failed)
                    self.walk(seg, sst)
                    if self.failed is not None and s[4] is None:
                        self.bad('write-failure-final', 'the loop goes on after %s failed' % self.failed.name, ev)
                    if self.depth != s[0] or self.closed != s[3]:
                        self.bad('balanced', 'an iteration of a loop leaves a struct open or ends one it did not start', ev)
                    many = self.many or self.top != s[1]
                    self.depth, self.top, self.many, self.closed, self.failed = s
                    self.many = many
                continue
            self.step(ev, st)

    def pair(self, ev, st, tag, many=False):
        """a tagged value is written"""
        m = self.m
        if self.closed:
            self.bad('balanced', 'something is written after the end of the struct', ev)
        own = m.tag is not None and tag is m.tag
        if self.depth == 0 and m.name != 'serialize_body':
            if not own:
                self.bad('own-tag', 'a value is written under a tag other than the one asked for', ev)
            if many:
                self.many = True
            else:
                self.top += 1
            return
        k = const_of(st.f, tag) if tag is not None else None
        if k is not None:
            if not 1 <= k <= 63:
                self.bad('tag-valid', 'tag %d is written; tags are 1 to 63' % k, ev)
        elif not (m.self_path == UNKF and m.from_self(tag)):
            self.bad('tag-valid', 'a field is written under a tag that is not a constant of the format', ev)

    def step(self, ev, st):
        m, x = self.m, ev.x or {}
        if ev.kind not in ('api', 'ser'):
            return
        if ev.kind == 'ser' and x.get('none'):
            return
        if self.failed is not None:
            self.bad('write-failure-final', '%s is called after %s failed' % (ev.name, self.failed.name), ev)
            return
        d = x['objs'][0 if ev.kind == 'api' else 1][0] if len(x['objs']) > (0 if ev.kind == 'api' else 1) else None
        if d is not m.dst:
            self.bad('own-output', '%s is applied to a stream other than the destination' % ev.name, ev)
            return
        self.wrote += 1
        if x.get('ok') is False:
            self.failed = ev
            return
        if ev.kind == 'ser':
            if ev.name == 'body':
                self.end_struct(ev)
            elif ev.name in ('field', 'element', 'slice'):
                self.pair(ev, st, x.get('tag'), ev.name == 'field')
            else:
                self.bad('balanced', 'unexpected operation %s' % ev.name, ev)
            return
        tag = x['objs'][1][0] if len(x['objs']) > 1 else None
        if ev.name in WRITES1:
            self.pair(ev, st, tag)
        elif ev.name in OPENS:
            self.pair(ev, st, tag)
            self.depth += 1
        elif ev.name == 'write_end_struct':
            self.end_struct(ev)
        elif ev.name not in NEUTRAL:
            self.bad('balanced', 'unexpected operation %s::%s while serialising' % (x['type'], ev.name), ev)

    def end_struct(self, ev):
        if self.depth > 0:
            self.depth -= 1
            return
        if self.m.name != 'serialize_body':
            self.bad('balanced', 'a struct is ended that was not started', ev)
        elif self.closed:
            self.bad('balanced', 'the struct is ended twice', ev)
        self.closed += 1

    def end(self):
        m, o = self.m, self.o
        if o.kind != 'ret':
            return
        r, v = m.result(o)
        self.res = r
        if self.failed is not None:
            if r != 'err' or v is not self.failed.x['err']:
                self.bad('write-failure-final', '%s fails but its error is not what is returned' % self.failed.name,
                         self.failed)
            return
        if r == 'ok':
            if self.depth:
                self.bad('balanced', 'success although a struct is still open')
            if m.name == 'serialize_body':
                if self.closed != 1:
                    self.bad('balanced', 'success without ending the struct')
            elif m.name in ('serialize_element', 'serialize_slice') and (self.top != 1 or self.many):
                self.bad('exactly-one', 'the value is not written as exactly one tagged value')
        elif r == 'none':
            if self.wrote:
                self.bad('balanced', '"not handled" is reported after something was written')
        elif r == 'err':
            self.bad('write-failure-final', 'an error is returned although every write succeeded')
        else:
            self.bad('write-failure-final', 'the outcome is not a recognisable result: %s' % show(o.val)[:80])


_ser = {}


def ser_all(ck, D=None):
    D = D or ck.D
    k = id(D)
    if k not in _ser:
        hl = HL(D, iters=True)
        _ser[k] = [SerMethod(ck, hl, r) for r in ser_methods(D)]
    else:
        for m in _ser[k]:
            ck.analysed(m.site, len(m.outs))
    return _ser[k]


SER_RULES = {'serialize_body': ('balanced', 'tag-valid', 'write-failure-final', 'own-output'),
             'serialize_field': ('balanced', 'own-tag', 'tag-valid', 'write-failure-final', 'own-output'),
             'serialize_element': ('balanced', 'exactly-one', 'own-tag', 'tag-valid', 'write-failure-final', 'own-output'),
             'serialize_slice': ('balanced', 'exactly-one', 'own-tag', 'tag-valid', 'write-failure-final', 'own-output')}


def rule_wellformed(ck, m):
    probs = {}
    n = 0
    for o in m.outs:
        if o.kind != 'ret':
            if not (m.name == 'serialize_field' and m.self_path == UNKF):
                ck.ob('no-panic', m.site, False, 'serialising can panic: %s' % (o.why,), m.at)
            continue
        n += 1
        for r, d, at in SerWalk(m, o).problems:
            probs.setdefault(r, (d, at))
    rules = SER_RULES[m.name]
    for r in rules:
        if n:
            ck.ob(r, m.site, r not in probs, *(probs.get(r) or ('', None)))
    for r in probs:
        if r not in rules:
            ck.ob(r, m.site, False, *probs[r])
    return n
