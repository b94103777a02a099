"""C22: fourleaf_retrofit! generates what its declaration says."""
from roundtrip import *
from ctxlib import *
W = 'fourleaf::sa_witness::'
S, UF = 'alloc::string::String', "fourleaf::unknown::UnknownFields<'_>"
CUF = "fourleaf::adapt::Copied<%s>" % UF
U8 = 'u8'
# what witness/types.rs declares: per variant (None: struct, '?': catch-all) the type of each
# tag ('?': all other fields, '*': delegated to)
DECL = {
    'Plain': {None: {1: 'u32', 2: 'i64', 3: 'alloc::vec::Vec<%s>' % S, 40: 'core::option::Option<bool>', 63: '[u16; 3]'}},
    'Empty': {None: {}},
    'Checked': {None: {1: 'u64', 2: 'u64'}},
    'Delegating': {None: {'*': W + 'Plain'}},
    'DelegatingBlob': {None: {'*': 'alloc::vec::Vec<u8>'}},
    'Preserving': {None: {1: 'u32', 2: 'u64', '?': CUF}},
    "PreservingDirect<'_>": {None: {5: "alloc::borrow::Cow<'_, str>", '?': UF}},
    'PreservingAll': {None: {'?': CUF}},
    'Simple': {0: {}, 1: {1: 'u32', 2: 'u64'},
               12: {1: 'alloc::vec::Vec<u8>', 7: 'alloc::collections::btree::map::BTreeMap<%s, u8>' % S},
               300: {'*': W + 'Checked'}, 18446744073709551615: {1: 'u8', '?': CUF}},
    'CatchAll': {1: {1: 'u32'}, '?': {'?': CUF}},
    'CatchFields': {1: {1: 'u16'}, 2: {}, '?': {1: 'core::option::Option<u32>', 2: 'core::option::Option<u32>'}},
    'CatchDeleg': {0: {}, '?': {'*': W + 'Plain'}},
    'Foreign': {1: {1: 'u32'}, 2: {1: 'u64'}},
    "Generic<'_, A, B>": {1: {1: 'A'}, 2: {1: 'B'}, 3: {1: "alloc::borrow::Cow<'_, [u8]>"}},
    'Pair<A, B>': {None: {1: 'A', 2: 'B'}},
    'Tree': {None: {1: 'i32', 2: 'alloc::vec::Vec<%sTree>' % W}},
}


def name(k):
    return {'*': 'the field delegated to', '?': 'the remaining fields'}.get(k) or 'the field with tag %s' % k


def differs(O, have, want, doing, same, at):
    for k in list(want) + [k for k in have if k not in want]:
        if k not in have:
            O.bad('as-declared', '%s is not %s' % (name(k), doing), at)
        elif k not in want:
            O.bad('as-declared', '%s is %s but not declared' % (name(k), doing), at)
        elif not same(have[k], want[k]):
            O.bad('as-declared', '%s is %s as %s, declared as %s' % (name(k), doing, have[k], want[k]), at)


def read_fields(D, n):
    if n.kind == 'body':
        return {'*': tkey(D, n.ty)}
    return {'?' if k == REST else k: tkey(D, ty) for k, (v, ty) in n.fields.items()}


def levels(ck, t, m, decl):
    """what is delegated to is read one level below, so that a type that delegates to
    itself runs into the recursion limit"""
    n, bad = 0, None
    for o in m.outs:
        for ev in all_events(o.events()):
            x = ev.x or {}
            if ev.kind != 'de' or ev.name not in ('body', 'element') or x.get('ctx') is None:
                continue
            if not any('*' in v and v['*'] == tkey(t.D, x['self_ty']) for v in decl.values()):
                continue
            n += 1
            if not m.ctx_depth(x['ctx']):
                bad = ev.site
    if n:
        ck.ob('delegates-one-level-down', m.site, bad is None,
              'the value delegated to is read without entering a level', bad)
    return n


def declared_reader(t, O, decl, g):
    seen = set()
    if None in decl:
        body = t.reader(g, 'deserialize_body')
        for r in reader_outs(body):
            if r.node is None:
                O.bad('as-declared', 'the fields are not read', body.at)
                continue
            seen.add(None)
            differs(O, read_fields(t.D, r.node), decl[None], 'read', lambda a, b: a == b, body.at)
        el = t.reader(g, 'deserialize_element')
        for r in reader_outs(el):
            n = r.node
            if '*' in decl[None]:
                if n is None or n.kind != 'as' or tkey(t.D, n.ty) != decl[None]['*']:
                    O.bad('as-declared', 'as an element, it is not read as the element delegated to', el.at)
            elif n is None or n.kind != 'struct' or n.inner is None or n.inner.kind != 'body' or \
                    n.inner.v is not r.value:
                O.bad('as-declared', 'as an element, it is not read as a struct with its fields', el.at)
    else:
        el = t.reader(g, 'deserialize_element')
        for r in reader_outs(el):
            n = r.node
            if n is None or n.kind != 'enum' or n.inner is None:
                O.bad('as-declared', 'it is not read as an enum', el.at)
                continue
            d = disc_const(r.f, n.d)
            d = '?' if d is None else d
            if d not in decl:
                O.bad('as-declared', 'discriminant %s is accepted but not declared' % d, el.at)
                continue
            seen.add(d)
            differs(O, read_fields(t.D, n.inner), decl[d], 'read', lambda a, b: a == b, el.at)
    if seen != set(decl):
        O.bad('as-declared', 'never read: %s' % sorted(map(str, set(decl) - seen)), g['deserialize_field'].at)


def written_fields(t, O, w, nodes, want):
    res = {}
    for n in [n for n in nodes if n.kind != 'none']:
        if n.kind == 'ser' and n.how == 'field':
            k = const_of(w.f, n.tag)
        elif n.kind == 'body' and n is nodes[-1]:
            k = '*' if '*' in want else '?'
        else:
            k = None
        if k is None or k in res:
            O.bad('as-declared', 'something is written that is not declared (%s)' % n.kind, w.m.at)
            continue
        res[k] = tkey(t.D, n.ty)
    return res


def declared_writer(t, O, decl, key):
    same = lambda a, b: reads_back(a, b)
    seen = set()
    el, body = t.writer(key, 'element'), t.writer(key, 'body')
    if None in decl:
        for w in writer_outs(body):
            seen.add(None)
            differs(O, written_fields(t, O, w, w.nodes, decl[None]), decl[None], 'written', same, body.at)
        for w in writer_outs(el):
            ns = [n for n in w.nodes if n.kind != 'none']
            if '*' in decl[None]:
                good = len(ns) == 1 and ns[0].kind == 'ser' and ns[0].how == 'element' and \
                    reads_back(tkey(t.D, ns[0].ty), decl[None]['*'])
                if not good:
                    O.bad('as-declared', 'as an element, it is not written as the element delegated to', el.at)
            else:
                ch = [n for n in ns[0].ch if n.kind != 'none'] if len(ns) == 1 and ns[0].kind == 'struct' else []
                good = len(ch) == 1 and ch[0].kind == 'body' and ch[0].src is w.m.obj
                if not good and ns and ns[0].kind == 'struct':
                    good = True
                    differs(O, written_fields(t, O, w, ch, decl[None]), decl[None], 'written', same, el.at)
                if not good:
                    O.bad('as-declared', 'as an element, it is not written as a struct with its fields', el.at)
    else:
        for w in writer_outs(el):
            ns = [n for n in w.nodes if n.kind != 'none']
            if len(ns) != 1 or ns[0].kind != 'enum':
                O.bad('as-declared', 'it is not written as an enum', el.at)
                continue
            d = const_of(w.f, ns[0].d)
            d = '?' if d is None else d
            if d not in decl:
                O.bad('as-declared', 'discriminant %s is written but not declared' % d, el.at)
                continue
            seen.add(d)
            differs(O, written_fields(t, O, w, ns[0].ch, decl[d]), decl[d], 'written', same, el.at)
    if seen != set(decl):
        O.bad('as-declared', 'never written: %s' % sorted(map(str, set(decl) - seen)), el.at)


def run(ck):
    ck.D
    ck.ob('witness-builds', 'witness/types.rs', ck.narrow is None,
          'declarations of documented forms are not accepted any more:\n%s' % (ck.narrow or '')[-1500:])
    if ck.narrow:
        return
    t = Trip(ck)
    n = rule_roundtrip(ck, t, {k for k in t.r if not k.startswith(W)})
    ck.floor('retrofitted types', n, len(DECL))
    nl = 0
    for ty, decl in sorted(DECL.items()):
        key = W + ty
        if key not in t.r:
            ck.fail('as-declared', key, 'no reader for this type')
            continue
        for style, g in sorted(t.r[key].items()):
            m = list(g.values())[0]
            O = Obj(ck, key, m.at)
            declared_reader(t, O, decl, g)
            declared_writer(t, O, decl, key)
            O.flush(('as-declared',))
            for k in ('deserialize_body', 'deserialize_element'):
                if k in g:
                    nl += levels(ck, t, g[k], decl)
    ck.floor('delegations', nl, 6)
    ms = [m for m in de_all(ck) if 'sa_witness::' in m.site]
    ck.floor('generated reading functions', len(ms), 3 * len(DECL))
    for m in ms:
        for o in m.outs:
            ck.ob('never-panics', m.site, o.kind == 'ret', 'deserialising can panic: %s' % o.why, o.site)
        rule_consume(ck, m)
        rule_errors(ck, m)
        rule_label(ck, m)
        rule_nest(ck, m)
        rule_unknown(ck, m)
        rule_variants(ck, m)
        rule_collect(ck, m)
        rule_cardinality(ck, m)
        rule_assembly(ck, m)
    ws = [m for m in ser_all(ck) if 'sa_witness::' in m.site]
    ck.floor('generated writing functions', len(ws), 2 * len(DECL) - 6)
    for m in ws:
        rule_wellformed(ck, m)
