"""C17: unknown fields are kept as they are and written back the same."""
from roundtrip import *
from checks import c10
FIELDS, ONE = 'fourleaf::unknown::UnknownFields', 'fourleaf::unknown::UnknownField'
KINDS = ('integer', 'blob', 'struct', 'enum')


def about(D, ty, path):
    return isinstance(ty, int) and adt_path(D, ty) == path


def capture(ck, m):
    """UnknownField::deserialize_field: the variant and content are those of the field"""
    O = Obj(ck, m.site, m.at)
    e = m.e
    val = e.proj(m.field, ('f', m.valix))
    seen = set()
    for o in m.outs:
        if o.kind != 'ret':
            O.bad('kept-as-is', 'capturing can panic: %s' % o.why)
            continue
        r, v = m.result(o)
        a0, a1 = entry_after(m, o)
        if r == 'err':
            w = own_err(m, o)
            if failed_event(m, o) is None and not (w and w[0] == 'FieldOccursTooManyTimes'):
                O.bad('kept-as-is', 'a field is refused with %s' % (w[0] if w else 'an error'))
            continue
        ro = ROut(m, o)
        x = ro.value
        if x is None or x.op != 'agg' or x.a[0] != ONE:
            O.bad('kept-as-is', 'the accumulator is not filled with an unknown field', o.site)
            continue
        k = x.a[1]
        fk = variant(e, o.st, val)
        evs = [ev for ev in all_events(o.events()) if (ev.x or {}).get('ok') and ev.kind in ('api', 'de')]
        names = [ev.name for ev in evs if ev.kind == 'api']
        if fk is None:
            for i, n in enumerate(('to_u64', 'to_blob', 'to_struct', 'to_enum')):
                if n in names:
                    fk = i
        if fk is None or fk != k:
            O.bad('kept-as-is', 'a field of kind %s is kept as %s' % (KINDS[fk] if fk is not None else 'any', KINDS[k]), o.site)
            continue
        seen.add(k)
        body = [ev for ev in evs if ev.kind == 'de' and ev.name == 'body']
        asel = [ev for ev in evs if ev.kind == 'de' and ev.name == 'element']
        if k == 0:
            good = x.a[2] is e.proj(val, ('v', 0, 0)) or any(ev.name == 'to_u64' and ev.x['v'] is x.a[2] for ev in evs)
            if not good:
                O.bad('kept-as-is', 'the integer kept is %s' % show(x.a[2])[:80], o.site)
        elif k == 1:
            good = False
            for ev in evs:
                if ev.kind == 'de' and ev.name == 'element' and ev.x['v'] is x.a[2] and m.origin(ev.x['field']) == 'own-field':
                    good = tkey(m.D, ev.x['self_ty']).startswith('alloc::borrow::Cow<')
                if ev.kind == 'api' and ev.name in ('read_fully', 'ext_slice'):
                    y = x.a[2]
                    good = good or y.op == 'agg' and y.a[2] is ev.x['v']
            if not good:
                O.bad('kept-as-is', 'the blob kept is not the content of the field', o.site)
        else:
            sub = x.a[2 + (k == 3)]
            if k == 2 and len(asel) == 1 and asel[0].x['v'] is sub and about(m.D, asel[0].x['self_ty'], FIELDS) and \
                    m.origin(asel[0].x['field']) == 'own-field':
                pass
            elif len(body) != 1 or body[0].x['v'] is not sub or not about(m.D, body[0].x['self_ty'], FIELDS):
                O.bad('kept-as-is', 'the fields kept are not those nested in the field', o.site)
            elif m.origin(body[0].x['stream']) != 'sub':
                O.bad('kept-as-is', 'the fields kept come from another stream', o.site)
            if k == 3:
                d = x.a[2]
                good = d is e.proj(val, ('v', 3, 0)) or any(
                    ev.name == 'to_enum' and e.proj(ev.x['v'], ('f', 0), 'u64') is d for ev in evs)
                if not good:
                    O.bad('kept-as-is', 'the discriminant kept is %s' % show(d)[:80], o.site)
    if seen != {0, 1, 2, 3}:
        O.bad('every-kind-kept', 'no path keeps %s' % [KINDS[k] for k in sorted({0, 1, 2, 3} - seen)])
    O.flush(('kept-as-is', 'every-kind-kept'))
    return len(seen)


def replay(ck, m):
    """UnknownField::serialize_element writes a field of the kind and content kept"""
    O = Obj(ck, m.site, m.at)
    seen = set()
    for o in m.outs:
        if o.kind != 'ret':
            O.bad('written-as-kept', 'writing can panic: %s' % o.why)
    for w in writer_outs(m):
        k = variant(m.e, w.o.st, m.obj)
        if k is None:
            O.bad('written-as-kept', 'what is written does not depend on the kind kept', w.o.site)
            continue
        seen.add(k)
        ns = [n for n in w.nodes if n.kind != 'none']
        part = lambda i: m.e.proj(m.obj, ('v', k, i))
        if len(ns) != 1:
            O.bad('written-as-kept', '%d values are written for one field' % len(ns), w.o.site)
            continue
        n = ns[0]
        good = False
        if k == 0:
            good = n.kind == 'leaf' and n.x in ('u64', 'usize') and n.arg is part(0)
        elif k == 1:
            good = n.kind == 'leaf' and n.x == 'blob' and cow_bytes(w, n, part(0))
        elif k == 2 and n.kind == 'ser':
            good = n.how == 'element' and holds(w, n.src, part(0)) and about(m.D, n.ty, FIELDS)
        elif k == 2:
            good = n.kind == 'struct' and one_body(m, w, n, part(0))
        else:
            good = n.kind == 'enum' and n.d is part(0) and one_body(m, w, n, part(1))
        if not good:
            O.bad('written-as-kept', 'a kept %s is not written as such (%s)' % (KINDS[k], n.kind), w.o.site)
    if seen != {0, 1, 2, 3}:
        O.bad('every-kind-written', 'no path writes %s' % [KINDS[k] for k in sorted({0, 1, 2, 3} - seen)])
    O.flush(('written-as-kept', 'every-kind-written'))


def holds(w, src, want):
    for _ in range(4):
        if src is want:
            return True
        if src.op == 'ref':
            root, path = src.a[0]
            src = w.m.e.load(w.o.st, root, path)
        elif src.op == 'deref':
            src = src.a[0]
        else:
            return False
    return False


def one_body(m, w, n, want):
    ch = [c for c in n.ch if c.kind != 'none']
    return len(ch) == 1 and ch[0].kind == 'body' and holds(w, ch[0].src, want) and about(m.D, ch[0].ty, FIELDS)


def cow_bytes(w, n, want):
    """the blob written is the whole Cow kept"""
    for b in (n.arg, n.obj):
        for _ in range(6):
            if b is want or b.op == 'vslice' and b.a[0] is want:
                return True
            ev = w.calls.get(b)
            if ev is not None and ev.name.split('::')[-1] in POINTERS and len(ev.args) == 1:
                b = ev.args[0]
            elif b.op == 'ref':
                root, path = b.a[0]
                b = w.m.e.load(w.o.st, root, path)
            elif b.op == 'deref':
                b = b.a[0]
            elif b.op == 'proj' and b.a[0] is want and b.a[1][0] == 'v' and b.a[1][2] == 0:
                b = b.a[0]
            else:
                break
    return False


def replay_all(ck, m):
    """UnknownFields::serialize_body writes every field kept, in order, under its own tag"""
    O = Obj(ck, m.site, m.at)
    for o in m.outs:
        if o.kind != 'ret':
            O.bad('items-written', 'writing can panic: %s' % o.why)
    n = 0
    for w in writer_outs(m):
        n += 1
        e = m.e

        def one(nodes, item, f):
            if len(nodes) != 1 or nodes[0].kind != 'ser' or nodes[0].how not in ('field', 'element'):
                O.bad('items-written', 'a field kept is written as %s' % [x.kind for x in nodes], m.at)
                return
            x = nodes[0]
            if not about(m.D, x.ty, ONE):
                O.bad('items-written', 'a field kept is written as another type', m.at)
            at = lambda i: [e.proj(t, ('f', i)) for t in (item, e.deref(w.o.st, item))]
            if not any(holds(w, x.src, t) for t in at(1)):
                O.bad('items-written', 'what is written is not the field kept', m.at)
            if not any(holds(w, x.tag, t) or x.tag is t for t in at(0)):
                O.bad('own-tag', 'a field kept is written under %s, not its own tag' % show(x.tag)[:60], m.at)
        iteration(O, w, e.proj(m.obj, ('f', 0)), one)
    if not n:
        O.bad('items-written', 'the fields kept are never written', m.at)
    O.flush(('items-written', 'own-tag'))


def capture_all(ck, m):
    """UnknownFields::deserialize_body hands every field to the capture, and keeps them all"""
    O = Obj(ck, m.site, m.at)
    ok = 0
    for o in m.outs:
        if o.kind != 'ret':
            O.bad('all-captured', 'can panic: %s' % o.why)
            continue
        r, v = m.result(o)
        if r == 'err':
            if failed_event(m, o) is None:
                O.bad('all-captured', 'a field is refused', o.site)
            continue
        ok += 1
        ends = [ev for ev in o.events() if ev.kind == 'api' and ev.name == 'next_field']
        if not ends or m.origin(ends[-1].x['self']) != 'own-stream' or \
                variant(m.e, o.st, ends[-1].x['v']) != 0:
            O.bad('all-captured', 'success before the struct has ended', o.site)
        loops = [ev for ev in o.events() if ev.kind == 'loop']
        for lp in loops:
            for seg, s2 in lp.x['segs']:
                got = [ev for ev in seg if ev.kind == 'api' and ev.name == 'next_field']
                used = [ev for ev in all_events(seg) if ev.kind == 'push' or ev.kind == 'de' and ev.name == 'field' and
                        about(m.D, ev.x['self_ty'], FIELDS)]
                if len(got) != 1 or len(used) != 1:
                    O.bad('all-captured', '%d of %d fields read in one turn are kept' % (len(used), len(got)), o.site)
    if not ok:
        O.bad('all-captured', 'no path succeeds')
    O.flush(('all-captured',))


def as_element(ck, m):
    """as an element, UnknownFields is the struct with these fields"""
    O = Obj(ck, m.site, m.at)
    if m.name == 'serialize_element':
        outs = writer_outs(m)
        for w in outs:
            ns = [n for n in w.nodes if n.kind != 'none']
            if not (len(ns) == 1 and ns[0].kind == 'struct' and one_body(m, w, ns[0], m.obj)):
                O.bad('struct-as-element', 'the fields kept are not written as one struct', m.at)
    else:
        outs = reader_outs(m)
        for r in outs:
            n = r.node
            if n is None or n.kind != 'struct' or n.inner is None or n.inner.kind != 'body' or \
                    n.inner.v is not r.value or not about(m.D, n.inner.ty, FIELDS):
                O.bad('struct-as-element', 'the fields kept are not those of the struct', m.at)
    if not outs:
        O.bad('struct-as-element', 'no path succeeds', m.at)
    O.flush(('struct-as-element',))


def panics(ck, m):
    """an UnknownFields cannot be written under a tag of its container"""
    ck.ob('refused-as-field', m.site, bool(m.outs) and all(o.kind != 'ret' for o in m.outs),
          'UnknownFields is written as an ordinary field', m.at)


def run(ck):
    c = {k: 0 for k in ('capture', 'replay', 'replay_all', 'capture_all', 'refused', 'element')}
    for m in de_all(ck):
        if about(m.D, m.self_ty, ONE) and m.name == 'deserialize_field':
            c['capture'] += capture(ck, m)
        if about(m.D, m.self_ty, FIELDS) and m.name == 'deserialize_body':
            capture_all(ck, m)
            c['capture_all'] += 1
        if about(m.D, m.self_ty, FIELDS) and m.name == 'deserialize_element':
            as_element(ck, m)
            c['element'] += 1
        if about(m.D, m.self_ty, ONE) or about(m.D, m.self_ty, FIELDS) or m.self_s == 'Self':
            rule_cardinality(ck, m)
            rule_assembly(ck, m)
            rule_consume(ck, m)
    for m in ser_all(ck):
        ty = m.self_ty
        if about(m.D, ty, ONE) and m.name == 'serialize_element':
            replay(ck, m)
            c['replay'] += 1
        if about(m.D, ty, FIELDS) and m.name == 'serialize_body':
            replay_all(ck, m)
            c['replay_all'] += 1
        if about(m.D, ty, FIELDS) and m.name == 'serialize_element':
            as_element(ck, m)
            c['element'] += 1
        if about(m.D, ty, FIELDS) and m.name == 'serialize_field':
            panics(ck, m)
            c['refused'] += 1
    for k, least in (('capture', 4), ('capture_all', 1), ('replay', 1), ('replay_all', 1), ('refused', 1), ('element', 2)):
        ck.floor(k, c[k], least)
    c10.run(ck)
