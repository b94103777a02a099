"""C19: copying and zero-copy decoding differ only in who owns the bytes."""
from hlrules import *
import checks.c24 as c24
from codec import rule_cardinality

COW = 'alloc::borrow::Cow'
COPIED = 'fourleaf::adapt::Copied'
PAIRS = ('&[u8]', '&str', 'alloc::string::String', 'u8')


def run(ck):
    D = ck.D
    ix = {}
    for r in D.roots:
        ix.setdefault(r['path'], []).append(r)
    ms = de_all(ck)
    n = calls = cows = leaves = 0
    for m in ms:
        n += 1
        own = style_name(D, m.style)
        sp = D.tys[m.self_ty]['path'] if isinstance(m.self_ty, int) and D.tys[m.self_ty]['k'] == 'adt' else None
        want = 'Copying' if sp == COPIED else own
        ref = isinstance(m.self_ty, int) and D.tys[m.self_ty]['k'] == 'ref'
        if ref:
            ck.ob('only-zero-copy-borrows', m.site, own == 'ZeroCopy',
                  'a reference is decoded with style %s' % own, m.at)
        for o in m.outs:
            if o.kind != 'ret':
                continue
            for ev in all_events(o.events()):
                if ev.kind == 'de' and ev.name not in ('serialized_as_slice',):
                    st = style_of(D, ix, ev)
                    calls += 1
                    ck.ob('style-forwarded', m.site, st == want,
                          '%s of %s is decoded with style %s, not %s' % (
                              ev.name, D.s(ev.x['self_ty']) if isinstance(ev.x['self_ty'], int) else '?', st, want), ev.site)
                if ev.kind == 'api' and ev.name == 'ext_slice' or ev.kind in ('call', 'io') and ev.name and \
                        ev.name.endswith('as_ext_bytes'):
                    ck.ob('only-zero-copy-borrows', m.site, own == 'ZeroCopy',
                          'borrows the input with style %s' % own, ev.site)
            if sp == COW:
                cows += cow(ck, m, o, own)
        k = c24.kind_of(D, m)
        if k and m.self_s in PAIRS and not c24.in_witness(m):
            leaves += 1
            for o in m.outs:
                if o.kind == 'ret':
                    c24.leaf(ck, m, o, *k)
        if m.self_s in PAIRS or sp in (COW, COPIED):
            rule_cardinality(ck, m)
    ck.floor('deserialising functions', n, 380)
    ck.floor('nested calls', calls, 600)
    ck.floor('outcomes of Cow', cows, 6)
    ck.floor('decoders of bytes and text', leaves, 36)


def style_name(D, t):
    if t is None:
        return 'STYLE'
    s = D.s(t) if isinstance(t, int) else str(t)
    return s.split('::')[-1]


def style_of(D, ix, ev):
    """the STYLE a nested call is made with"""
    x = ev.x['callee']
    a = x.get('args') or []
    if x.get('impl_self') is None:
        # a call through the trait: arguments are [Self, R, STYLE, ...]
        return style_name(D, a[2]) if len(a) > 2 else None
    got = set()
    for r in ix.get(x['path'], []):
        ta = r.get('trait_args') or []
        if len(ta) < 3 or r.get('impl_self') != x['impl_self'] and len(ix[x['path']]) > 1:
            continue
        s = ta[2]
        if D.tys[s]['k'] == 'param':
            ga = D.insts[r['inst']].get('args') or []
            if s in ga and ga.index(s) < len(a):
                s = a[ga.index(s)]
        got.add(style_name(D, s))
    return got.pop() if len(got) == 1 else None


def cow(ck, m, o, own):
    r, v = m.result(o)
    if r != 'ok' or m.name == 'deserialize_field':
        return 0
    D = ck.D
    vals = [ev.x['v'] for ev in all_events(o.events()) if ev.kind == 'de' and ev.x.get('ok')]
    want = {'Copying': 'Owned', 'ZeroCopy': 'Borrowed'}.get(own)
    fine = v.op == 'agg' and v.a[0] == COW and variant_name(D, COW, v.a[1]) == want and \
        any(v.a[2] is x for x in vals)
    ck.ob('cow-owner', m.site, fine, 'yields %s' % show(v)[:100], m.at)
    return 1
