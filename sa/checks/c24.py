"""C24: values that do not fit their type are refused, all others are taken over exactly."""
from hlrules import *
from codec import entry_after, own_err
from streamlib import Lib, StreamEnv, V

INTS_ = ('bool', 'i8', 'u8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize')
VALIDATE = {
    'char': (('to_u32',), ('core::char::from_u32', 'core::char::convert::from_u32', 'core::char::methods::from_u32',
                           'try_from', 'try_into'), 'InvalidValueMsg'),
    'alloc::string::String': (('read_fully',), ('alloc::string::String::from_utf8',), 'InvalidValue'),
    'str': (('ext_slice',), ('core::str::converts::from_utf8',), 'InvalidValue'),
}


def run(ck):
    D = ck.D
    values(ck)
    nl = no = 0
    for m in de_all(ck):
        if in_witness(m):
            continue
        k = kind_of(D, m)
        for o in m.outs:
            if o.kind != 'ret':
                continue
            if k:
                no += 1
                leaf(ck, m, o, *k)
            else:
                other(ck, m, o)
        if k:
            nl += 1
    ck.floor('leaf decoders', nl, 50)
    ck.floor('outcomes of leaf decoders', no, 150)


def in_witness(m):
    return 'sa_witness' in (m.root.get('path') or '') or 'sa_witness' in m.self_s


# ---------------------------------------------------------------- the element types

WANT = {'to_struct': 'Struct', 'to_enum': 'Enum', 'to_blob': 'Blob'}


def values(ck):
    L = Lib(ck)
    D = ck.D
    vt = None
    n = 0
    for r in D.roots:
        if r['name'] not in WANT or not r['path'].startswith(V) or str(r['inst']) not in D.bodies:
            continue
        ru = analyse(ck, r['path'], StreamEnv(D, L.R).hooks)
        e = ru.e
        site, at = short(r['path']), '%s:%s' % (r['file'], r['line'])
        want = WANT[r['name']]
        ty = D.deref_ty(ru.args[0].ty)
        val = e.load(ru.st0, *e.addr_of(ru.args[0]))
        names = {i: v['n'] if isinstance(v, dict) and 'n' in v else i for i, v in enumerate(D.tys[ty]['vs'])}
        for o in ru.outs:
            n += 1
            if o.kind != 'ret':
                ck.fail('returns', site, '%s: %s' % (o.kind, o.why), o.site)
                continue
            d = variant(e, o.st, val)
            good, p = result_of(e, o)
            if d is None:
                ck.fail('type-exact', site, 'decides without looking at the element type', at)
                continue
            nm = variant_name(D, D.tys[ty]['path'], d)
            if nm == want:
                bad = None if good else 'refuses a %s' % nm
                if good:
                    root_, path = e.addr_of(ru.args[0])
                    fields = [e.load(o.st, root_, path + (('v', d, i),), D.kt(t)) for i, (_, t) in
                              enumerate(D.tys[ty]['vs'][d]['f'])]
                    addrs = [(root_, path + (('v', d, i),)) for i in range(len(fields))]
                    if want == 'Enum':
                        okk = p.op == 'agg' and p.a[0] == 'tuple' and e.proj(p, ('f', 0)) is fields[0] and \
                            place_ok(e, e.proj(p, ('f', 1)), addrs[1], fields[1])
                    else:
                        okk = place_ok(e, p, addrs[0], fields[0])
                    bad = None if okk else 'returns %s' % show(p)[:100]
            else:
                bad = None
                if good is not False:
                    bad = 'a %s is taken for a %s' % (nm, want)
                elif not (p.op == 'agg' and p.a[0] == ERR and variant_name(D, ERR, p.a[1]) == 'UnexpectedType' and
                          text(p.a[2]) == want and text(p.a[3]) == nm):
                    bad = 'a %s is refused with %s' % (nm, show(p)[:100])
            ck.ob('type-exact', site, bad is None, bad, at)
    ck.floor('outcomes of to_struct, to_enum, to_blob', n, 12)


def place_ok(e, p, ad, v):
    """p is (a reference to) the payload"""
    if p is v:
        return True
    try:
        a = e.addr_of(p)
        return a == ad or a == e.addr_of(v)
    except Exception:
        return False


def text(t):
    return t.a[0] if t.op == 'str' else None


# ---------------------------------------------------------------- leaf decoders

def kind_of(D, m):
    """(class, detail) of a method that turns a field into a leaf value"""
    s = m.self_s
    nm = m.name
    if nm == 'deserialize_field':
        if s in INTS_:
            return 'direct', ('to_' + s,)
        if s == 'char' or s == 'alloc::string::String':
            return 'valid', VALIDATE[s]
        t = D.tys[m.self_ty] if isinstance(m.self_ty, int) else None
        if t is not None and t['k'] == 'ref':
            u = D.s(t['t'])
            if u == 'str':
                return 'valid', VALIDATE['str']
            if u == '[u8]':
                return 'direct', ('ext_slice',)
    if s == 'u8':
        if nm == 'deserialize_vec':
            return 'direct', ('read_fully',)
        if nm == 'deserialize_slice':
            return 'fill', None
        g = re.match(r'deserialize_array_(\d+)$', nm)
        if g:
            return 'array', int(g.group(1))
    return None


def payload(m, o, ev):
    """what an operation yielded on this path"""
    return ev.x['v'] if ev.x.get('ok') else None


def on_own(m, ev):
    return m.origin(ev.x['self']) in ('own-field', 'blob') if ev.x.get('self') is not None else False


def leaf(ck, m, o, kind, arg):
    r, v = m.result(o)
    f = o.st.f
    e = m.e
    evs = list(all_events(o.events()))
    api = [ev for ev in evs if ev.kind == 'api']
    bad = None
    if r == 'ok':
        if kind in ('direct', 'valid'):
            names = arg if kind == 'direct' else arg[0]
            src = [ev for ev in api if ev.name in names and ev.x.get('ok') and on_own(m, ev)]
            got = taken(m, o, v)
            if len(src) != 1:
                bad = 'the value does not come from %s of the field' % '/'.join(names)
            elif kind == 'direct':
                if not any(g is src[0].x['v'] for g in got):
                    bad = 'the value taken is %s, not what the field holds' % [show(g)[:60] for g in got][:2]
            else:
                vc = [ev for ev in evs if ev.kind == 'call' and ev.name.endswith(arg[1]) and
                      ev.args and ev.args[-1] is src[0].x['v']]
                if not vc:
                    bad = 'the value is not validated'
                elif not any(g is e.proj(vc[0].ret, ('v', k, 0)) or g is inner(e, o, vc[0].ret) for g in got
                             for k in (0, 1)):
                    bad = 'the value taken is %s, not the validated one' % [show(g)[:60] for g in got][:2]
                elif variant_of(e, o, vc[0].ret) != good_variant(ck, vc[0]):
                    bad = 'the value is taken although it is not valid'
        else:
            rd = [ev for ev in api if ev.name == 'read_exact' and ev.x.get('ok')]
            want = C(arg, 'u64') if kind == 'array' else e.length(m.args[0])
            if kind == 'array' and len(rd) != 1 or kind == 'fill' and len(rd) != 1:
                full = [ev for ev in api if ev.name == 'read_fully' and ev.x.get('ok')]
                bad = 'the bytes are not read exactly once' if not full else 'the bytes are read another way'
            else:
                b = rd[0].x['buf']
                gets = lengths(m, evs)
                if kind == 'array':
                    if v is not b:
                        bad = 'the array is %s, not the bytes of the blob' % show(v)[:80]
                    sl = rd[0].x.get('slen')
                    if sl is not None and not same_num(f, sl, want):
                        bad = 'only %s bytes are read' % show(sl)
                else:
                    into = rd[0].x['into']
                    if into is not m.args[0] and not whole_of(e, f, into, m.args[0]):
                        bad = 'not the whole destination is filled'
                if not any(same_num(f, g, want) for g in gets):
                    bad = bad or 'a blob of another length is accepted'
    elif r == 'err':
        own = own_err(m, o)
        if own and own[0] in ('InvalidValue', 'InvalidValueMsg'):
            if kind == 'valid':
                vc = [ev for ev in evs if ev.kind == 'call' and ev.name.endswith(arg[1])]
                if own[0] != arg[2]:
                    bad = 'an invalid value is refused with %s' % own[0]
                elif not vc or variant_of(e, o, vc[0].ret) in (None, good_variant(ck, vc[0])):
                    bad = 'a valid value is refused'
                elif own[0] == 'InvalidValue' and not within(own[1][1], e.proj(vc[0].ret, ('v', 1, 0))):
                    bad = 'the error does not carry what is wrong with the value'
            elif kind in ('array', 'fill'):
                want = C(arg, 'u64') if kind == 'array' else e.length(m.args[0])
                if own[0] != 'InvalidValueMsg':
                    bad = 'a blob of the wrong length is refused with %s' % own[0]
                elif not any(differ_num(f, g, want) for g in lengths(m, evs)):
                    bad = 'a blob of the right length is refused'
            else:
                bad = 'a valid value is refused'
    elif r == 'none':
        bad = 'a blob is not handled' if kind in ('array', 'fill') or m.name == 'deserialize_vec' else None
    ck.ob('exact-or-refused', m.site, bad is None, bad, m.at)


def lengths(m, evs):
    return [ev.x['v'] for ev in evs if ev.kind == 'get' and ev.name in ('remaining', 'len') and on_own(m, ev)]


def whole_of(e, f, into, dst):
    if into.op != 'slice':
        return False
    root_, off, ln = into.a
    return root_ == e.addr_of(dst) and is_c(off) and cv(off) == 0 and same_num(f, ln, e.length(dst))


def taken(m, o, v):
    """candidates for the value stored or returned: Some(v) in the accumulator"""
    if m.name != 'deserialize_field':
        return [v]
    a0, a1 = entry_after(m, o)
    res = []

    def walk(t, d=0):
        res.append(t)
        if t.op == 'agg' and d < 4:
            for x in t.a[2:]:
                if isinstance(x, T):
                    walk(x, d + 1)
    walk(a1)
    return res


def inner(e, o, ret):
    k = variant_of(e, o, ret)
    return None if k is None else e.proj(ret, ('v', k, 0))


def variant_of(e, o, t):
    return variant(e, o.st, t)


def good_variant(ck, ev):
    """Ok is 0, Some is 1"""
    t = ev.ret.ty
    s = ck.D.tys[t]['path'] if isinstance(t, int) and ck.D.tys[t]['k'] == 'adt' else ''
    return 1 if s == OPTION else 0


# ---------------------------------------------------------------- everything else

NANOS = 1000000000


def other(ck, m, o):
    """no other decoder refuses or alters values; a Duration needs nanoseconds below a second"""
    r, v = m.result(o)
    own = own_err(m, o)
    e, f = m.e, o.st.f
    dur = 'core::time::Duration' in (m.self_s or '')
    if dur and m.name == 'deserialize_body' and r == 'ok':
        calls = [ev for ev in all_events(o.events()) if ev.kind == 'call' and ev.ret is v]
        fin = {}
        for ev in all_events(o.events()):
            if ev.kind == 'de' and ev.name == 'finish' and ev.x.get('ok'):
                fin[ck.D.s(ev.x['self_ty'])] = ev.x['v']
        bad = None
        if not calls or not calls[0].name.startswith('core::time::Duration::new') or \
                [a for a in calls[0].args] != [fin.get('u64'), fin.get('u32')]:
            bad = 'the duration is made of %s' % show(v)[:80]
        elif f.feasible([row_gt(fin['u32'], C(NANOS - 1, 'u32'))]):
            bad = 'a second or more of nanoseconds is accepted'
        ck.ob('exact-or-refused', m.site, bad is None, bad, m.at)
    if own and own[0] in ('InvalidValue', 'InvalidValueMsg'):
        bad = 'refuses a value'
        if dur and m.name == 'deserialize_body':
            fin = [ev.x['v'] for ev in all_events(o.events()) if ev.kind == 'de' and ev.name == 'finish' and
                   ev.x.get('ok') and ck.D.s(ev.x['self_ty']) == 'u32']
            if fin and not f.feasible([row_gt(C(NANOS, 'u32'), fin[0])]):
                bad = None
        ck.ob('exact-or-refused', m.site, bad is None, bad, m.at)
    if r == 'ok' and own is None:
        # nothing lossy on the way
        for ev in all_events(o.events()):
            if ev.kind == 'api' and ev.name in ('read_or_trunc',):
                ck.ob('exact-or-refused', m.site, False, 'a blob may be cut short', ev.site)
