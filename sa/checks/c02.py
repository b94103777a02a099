"""C02: signed integers use the documented zig-zag mapping, typed readers are range checked."""
from wirelib import *
from streamlib import *

W = 'fourleaf::wire::'
UNSIGNED = ['u8', 'u16', 'u32', 'u64', 'usize']
SIGNED = ['i8', 'i16', 'i32', 'i64', 'isize']


def zz_bits(b):
    """bits of the zig-zag image of a signed value with bits b (64)"""
    s = b[63]
    return [s] + [b[k] ^ s for k in range(63)]


def unzz_bits(b):
    s = b[0]
    return [b[k + 1] ^ s for k in range(63)] + [s]


def run(ck):
    D = ck.D
    hooks = env_hooks(D)
    for name, spec in (('zigzag', zz_bits), ('unzigzag', unzz_bits)):
        r = analyse(ck, W + name, hooks)
        basic(ck, r)
        for o in r.rets():
            f = o.st.f
            a = ext_bits(f, r.args[0], 64)
            got = ext_bits(f, o.val, 64)
            want = [bit_reduce(m, f.bsub) for m in spec(a)]
            bad = [i for i in range(64) if got is None or got[i] != want[i]]
            ck.ob('zigzag-exact', r.name, not bad, 'bit %s of the result is wrong' % bad[:3], r.at)
    wire_signed(ck, D, hooks)
    writers(ck, D)
    readers(ck, D)


def wire_signed(ck, D, hooks):
    h = dict(hooks)
    # decode_u64 / encode_u64 on an arbitrary reader: exactness is C01
    h[W + 'decode_u64'] = mid_decode
    h[W + 'encode_u64'] = mid_encode
    r = analyse(ck, W + 'decode_i64', h)
    basic(ck, r)
    n = 0
    for o in r.rets():
        good, val = result_of(r.e, o)
        evs = [ev for ev in o.events()]
        if len(evs) != 1 or evs[0].name != 'decode_u64' or good is None:
            ck.fail('signed-decode', r.name, 'expected exactly one unsigned decode', r.at)
            continue
        ev = evs[0]
        if ev.x['ok'] != good:
            ck.fail('signed-decode', r.name, 'outcome disagrees with the unsigned decode', r.at)
            continue
        if good:
            n += 1
            p = same(o.st.f, val, [bit_reduce(m, o.st.f.bsub) for m in unzz_bits(ext_bits(o.st.f, ev.x['v'], 64))])
            ck.ob('signed-decode', r.name, p, 'not the zig-zag inverse of the decoded integer', r.at)
        else:
            ck.ob('signed-decode-error', r.name, contains(val, ev.x['err']), 'error replaced', r.at)
    r = analyse(ck, W + 'encode_i64', h)
    basic(ck, r)
    for o in r.rets():
        good, val = result_of(r.e, o)
        evs = [ev for ev in o.events()]
        if len(evs) != 1 or evs[0].name != 'encode_u64' or good is None:
            ck.fail('signed-encode', r.name, 'expected exactly one unsigned encode', r.at)
            continue
        ev = evs[0]
        n += 1
        f = o.st.f
        p = same(f, ev.args[1], [bit_reduce(m, f.bsub) for m in zz_bits(ext_bits(f, r.args[1], 64))])
        ck.ob('signed-encode', r.name, p, 'the zig-zag image is not what is written', r.at)
        ck.ob('signed-encode-error', r.name, ev.x['ok'] == good and (good or contains(val, ev.x['err'])),
              'outcome disagrees with the write', r.at)
    ck.floor('signed wire paths', n, 3)


def mid_decode(c):
    a, b = c.st, c.st.fork()
    v = fresh('int', 'u64')
    c.ev('mid', 'decode_u64', st=a, ret=ok(v), x={'ok': True, 'v': v})
    e = fresh('err', None)
    c.ev('mid', 'decode_u64', st=b, ret=err(e), x={'ok': False, 'err': e})
    return c.ret(ok(v), a) + c.ret(err(e), b)


def mid_encode(c):
    a, b = c.st, c.st.fork()
    c.ev('mid', 'encode_u64', st=a, ret=ok(UNIT), x={'ok': True})
    e = fresh('err', None)
    c.ev('mid', 'encode_u64', st=b, ret=err(e), x={'ok': False, 'err': e})
    return c.ret(ok(UNIT), a) + c.ret(err(e), b)


def same(f, t, want):
    got = ext_bits(f, t, 64)
    return got is not None and got == want


def writers(ck, D):
    L = Lib(ck)
    n = 0
    for ty in UNSIGNED + SIGNED + ['bool', 'null']:
        path = S + 'write_' + ty
        r = L.run(path, 'stream')
        for o in r.rets():
            good, val = result_of(r.e, o)
            ev = [x for x in io_events(o) if x.name == 'encode_u64']
            if good is None:
                ck.fail('typed-write', r.name, 'result is not determined', r.at)
            if not good:
                continue
            if len(ev) != 1:
                ck.fail('typed-write', r.name, 'does not write exactly one integer', r.at)
                continue
            f = o.st.f
            got = ev[0].x['v']
            if ty == 'null':
                want = [0] * 64
            else:
                b = ext_bits(f, r.args[2], 64)
                want = [bit_reduce(m, f.bsub) for m in (zz_bits(b) if ty in SIGNED else b)]
            n += 1
            ck.ob('typed-write', r.name, same(f, got, want),
                  'the integer written is not the %s of the argument' % (
                      'zig-zag image' if ty in SIGNED else 'value'), r.at)
    ck.floor('typed integer writers', n, 12)


def readers(ck, D):
    n = 0
    vt = [t for t in D.tys if t['k'] == 'adt' and t['path'] == 'fourleaf::stream::Value']
    if not vt:
        raise Anchor('stream::Value')
    names = [v['name'] for v in vt[0]['vs']]
    ii = names.index('Integer')
    for ty in UNSIGNED + SIGNED + ['bool', 'null']:
        r = analyse(ck, V + 'to_' + ty)
        basic(ck, r)
        seen = set()
        for o in r.rets():
            good, val = result_of(r.e, o)
            f = o.st.f
            v = r.e.deref(o.st, r.args[0])
            k = f.known.get(r.e.discr(v, 'isize'))
            if k is None or good is None:
                ck.fail('typed-read', r.name, 'an outcome does not depend on the field type', r.at)
                continue
            seen.add(names[k])
            if k != ii:
                okk = (not good and is_err_variant(D, val, ERR, 'UnexpectedType') and
                       strs(val) == ['Integer', names[k]])
                ck.ob('typed-read-type', '%s/%s' % (r.name, names[k]), okk,
                      'a %s field is not refused with the right type error' % names[k], r.at)
                continue
            n_int = r.e.proj(v, ('v', ii, 0), 'u64')
            src = ext_bits(f, n_int, 64)
            if ty == 'null':
                z = r.e.eq(n_int, C(0, 'u64'))
                if good:
                    okk = refuted(f, z, False)
                else:
                    okk = refuted(f, z, True) and is_err_variant(D, val, ERR, 'IntegerOutOfRange')
            elif ty == 'bool':
                if good:
                    n0 = val.a[0] if is_c(val) else None
                    okk = n0 is not None and refuted(f, r.e.eq(n_int, C(n0, 'u64')), False)
                    if n0 is None:
                        gb = f.rbits(val)
                        okk = gb is not None and gb[0] == src[0] and not any(src[1:])
                else:
                    okk = is_err_variant(D, val, ERR, 'IntegerOutOfRange') and \
                        refuted(f, r.e.eq(n_int, C(0, 'u64'))) and refuted(f, r.e.eq(n_int, C(1, 'u64')))
            else:
                want = unzz_bits(src) if ty in SIGNED else src
                want = [bit_reduce(m, f.bsub) for m in want]
                if good:
                    got = ext_bits(f, val, 64)
                    okk = val.ty == ty and in_ty(r.e, f, n_int, ty, D) and (
                        got == want or low_equal(f, val, want))
                else:
                    okk = is_err_variant(D, val, ERR, 'IntegerOutOfRange') and \
                        out_ty(r.e, f, n_int, ty, D)
            n += 1
            ck.ob('typed-read', '%s/%s' % (r.name, 'ok' if good else 'refused'), okk,
                  'value returned differs from the encoded integer' if good else
                  'an integer that is representable may be refused', r.at)
        ck.ob('typed-read-total', r.name, seen == set(names), 'outcomes only for %s' % sorted(seen), r.at)
    ck.floor('typed readers paths', n, 24)


def strs(v):
    return [x.a[0] for x in v.a[2:] if x.op == 'str']


def decoded(e, f, n_int, ty, D):
    """the mathematical value encoded: n or unzigzag(n), evaluated by the wire
    function (its exactness is decided above); each alternative covers all values"""
    if ty in UNSIGNED:
        return [[(f, n_int)]]
    r = root(D, W + 'unzigzag')
    res = []
    g = f.copy()
    g.bsub = {}                 # what is known of single bits would rewrite the value
    for h in (f, g):
        e2 = Engine(D)
        res.append([(o.st.f, o.val) for o in e2.call_inst(r['inst'], [n_int], St({}, h, None)) if o.kind == 'ret'])
    return res


def in_ty(e, f, n_int, ty, D):
    return any(all(g.in_range(t, ty) for g, t in alt) for alt in decoded(e, f, n_int, ty, D))


def out_ty(e, f, n_int, ty, D):
    lo, hi = ty_range(ty)

    def outside(g, t):
        d, k = lin(t)
        return not g.feasible([(d, k - lo), ({x: -v for x, v in d.items()}, hi - k)])
    return any(all(outside(g, t) for g, t in alt) for alt in decoded(e, f, n_int, ty, D))


def low_equal(f, val, want):
    """val is a narrow cast of the decoded integer (range is decided separately)"""
    b = f.rbits(val)
    return b is not None and b == want[:len(b)]
