"""C03: descriptor bytes and their structured form correspond one to one."""
from wirelib import *

W = 'fourleaf::wire::'
PARSE = W + 'Descriptor::parse'
FROM = '<fourleaf::wire::Descriptor as core::convert::From<fourleaf::wire::ParsedDescriptor>>::from'
TYPES = [('Enum', 0), ('Integer', 1), ('Blob', 2), ('Struct', 3)]
SPECIALS = [('EndOfStruct', 0), ('EndOfDoc', 1), ('Exception', 2), ('Padding', 3)]
DESC, PD = 'fourleaf::wire::Descriptor', 'fourleaf::wire::ParsedDescriptor'
DT, ST_ = 'fourleaf::wire::DescriptorType', 'fourleaf::wire::SpecialType'


def vidx(D, adt, name):
    for t in D.tys:
        if t['k'] == 'adt' and t['path'] == adt:
            for i, v in enumerate(t['vs']):
                if v['name'] == name:
                    return i
    raise Anchor('%s::%s' % (adt, name))


def assume(f, c, truth=True):
    g = f.assume(c, truth)
    if g is None:
        raise Anchor('contradictory precondition')
    return g


def run(ck):
    descriptors(ck)
    from checks import c04
    c04.headers(ck, c04.Lib(ck))


def descriptors(ck):
    D = ck.D
    hooks = env_hooks(D)
    parse(ck, D, hooks)
    build(ck, D, hooks)
    bytes_(ck, D, hooks)


def parse(ck, D, hooks):
    n = 0
    for special in (False, True):
        for name, ty in (SPECIALS if special else TYPES):
            box = {}

            def pre(e, st, args):
                b = fresh('byte', 'u8')
                box['b'] = b
                f = st.f
                f = assume(f, e.eq(e.bitop(f, 'and', b, C(0xC0, 'u8'), 'u8'), C(ty << 6, 'u8')))
                f = assume(f, e.eq(e.bitop(f, 'and', b, C(0x3F, 'u8'), 'u8'), C(0, 'u8')), special)
                st.f = f
                return [agg(DESC, 0, b)]
            r = analyse(ck, PARSE, hooks, pre=pre)
            site = '%s/%s' % (r.name, name)
            basic(ck, r)
            ck.ob('parse-decides', site, len(r.rets()) >= 1, 'no outcome for this class of bytes', r.at)
            for o in r.rets():
                v = o.val
                n += 1
                if special:
                    good = is_err_variant(D, v, PD, 'Special') and is_err_variant(D, v.a[2], ST_, name)
                else:
                    good = is_err_variant(D, v, PD, 'Pair') and is_err_variant(D, v.a[2], DT, name)
                    if good:
                        want = ext_bits(o.st.f, box['b'], 8)
                        got = ext_bits(o.st.f, v.a[3], 8)
                        good = got is not None and got[:6] == want[:6] and not any(got[6:])
                ck.ob('parse-exact', site, good, 'a byte with type bits %d and tag %s 0 parses to %s' % (
                    ty, '=' if special else '!=', show(v)), r.at)
    ck.floor('descriptor classes parsed', n, 8)


def build(ck, D, hooks):
    n = m = 0
    for special in (False, True):
        for name, ty in (SPECIALS if special else TYPES):
            for valid in ((True,) if special else (True, False)):
                box = {}

                def pre(e, st, args):
                    if special:
                        return [agg(PD, vidx(D, PD, 'Special'), agg(ST_, vidx(D, ST_, name)))]
                    t = fresh('tag', 'u8')
                    box['t'] = t
                    f = st.f
                    if valid:
                        f = assume(f, e.le(C(1, 'u8'), t))
                        f = assume(f, e.le(t, C(63, 'u8')))
                        # the same fact at bit level
                        f = assume(f, e.eq(e.bitop(f, 'and', t, C(0xC0, 'u8'), 'u8'), C(0, 'u8')))
                        st.f = f
                    return [agg(PD, vidx(D, PD, 'Pair'), agg(DT, vidx(D, DT, name)), t)]
                r = analyse(ck, FROM, hooks, pre=pre)
                site = 'Descriptor::from/%s' % name
                if valid:
                    basic(ck, r)
                    ck.ob('build-decides', site, len(r.rets()) >= 1, 'no descriptor is produced', r.at)
                    for o in r.rets():
                        n += 1
                        v = o.val
                        b = r.e.proj(v, ('f', 0), 'u8')
                        got = ext_bits(o.st.f, b, 8)
                        low = [0] * 6 if special else ext_bits(o.st.f, box['t'], 8)[:6]
                        want = low + [ty & 1, ty >> 1]
                        ck.ob('build-exact', site, got == want,
                              'the byte is not (type << 6 | tag): %s' % show(b), r.at)
                else:
                    # no normal return when the tag is outside 1..=63
                    for o in r.outs:
                        if o.kind != 'ret':
                            continue
                        m += 1
                        f = o.st.f
                        t = box['t']
                        e = r.e
                        low = refuted(f, e.eq(t, C(0, 'u8')))
                        high = not f.feasible([lin_sub(lin(t), ({}, 64))]) or \
                            refuted(f, e.eq(e.bitop(f, 'and', t, C(0xC0, 'u8'), 'u8'), C(0, 'u8')), False)
                        ck.ob('invalid-tag-refused', site, low and high,
                              'a descriptor is produced for a tag that may lie outside 1..=63', r.at)
    ck.floor('descriptor classes built', n, 8)
    ck.floor('tag range decisions', m, 4)


def bytes_(ck, D, hooks):
    n = 0
    r = analyse(ck, W + 'encode_descriptor', hooks)
    basic(ck, r)
    for o in r.rets():
        good, val = result_of(r.e, o)
        bs, failed, why = written(r.e, o)
        if why or good is None:
            ck.fail('descriptor-write', r.name, why or 'result is not determined', r.at)
            continue
        n += 1
        if good:
            d = r.e.proj(r.args[1], ('f', 0), 'u8')
            p = failed is None and len(bs) == 1 and \
                ext_bits(o.st.f, bs[0], 8) == ext_bits(o.st.f, d, 8)
            ck.ob('descriptor-write', r.name, p, 'not exactly the descriptor byte is written', r.at)
        else:
            ck.ob('descriptor-write-error', r.name, failed is not None and err_is_io(D, val, failed.x['err']),
                  'error without a failed write', r.at)
    r = analyse(ck, W + 'decode_descriptor', hooks)
    basic(ck, r)
    for o in r.rets():
        good, val = result_of(r.e, o)
        bs, failed, why = read_bytes(r.e, o)
        if why or good is None:
            ck.fail('descriptor-read', r.name, why or 'result is not determined', r.at)
            continue
        n += 1
        if good:
            d = r.e.proj(val, ('f', 0), 'u8')
            p = failed is None and len(bs) == 1 and \
                ext_bits(o.st.f, bs[0], 8) == ext_bits(o.st.f, d, 8)
            ck.ob('descriptor-read', r.name, p, 'the descriptor is not exactly the one byte read', r.at)
        else:
            ck.ob('descriptor-read-error', r.name, failed is not None and err_is_io(D, val, failed.x['err']),
                  'error without a failed read', r.at)
    ck.floor('descriptor byte paths', n, 4)
