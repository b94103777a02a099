"""Rules about what the deserialising functions keep: how many occurrences of a field a
type accepts (its accumulator as a state machine), and which value the occurrences become."""
from hlrules import *

VEC = 'alloc::vec::Vec'
GROWS = {       # collection -> operation that adds one item (at the end, where there is an order)
    'alloc::collections::vec_deque::VecDeque': 'push_back',
    'alloc::collections::linked_list::LinkedList': 'push_back',
    'alloc::collections::btree::set::BTreeSet': 'insert',
    'std::collections::hash::set::HashSet': 'insert',
    'alloc::collections::binary_heap::BinaryHeap': 'push',
    'alloc::collections::btree::map::BTreeMap': 'insert',
    'std::collections::hash::map::HashMap': 'insert',
}
MAPS = {p for p in GROWS if p.endswith('Map')}
WRAPS = {'alloc::boxed::Box', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::rc::Rc', 'alloc::sync::Arc',
         'alloc::borrow::Cow', 'fourleaf::adapt::Copied'}
UNKS = 'fourleaf::unknown::UnknownFields'
ARRACC = 'fourleaf::de::ArrayAccum'
LARGEACC = 'fourleaf::de::LargeArrayAccum'


def category(D, ty):
    """-> (kind, extra)"""
    if not isinstance(ty, int):
        return 'self', None
    t = D.tys[ty]
    if t['k'] == 'adt':
        p = t['path']
        if p == OPTION:
            return 'opt', None
        if p == VEC:
            return 'vec', None
        if p in GROWS:
            return 'grow', GROWS[p]
        if p in WRAPS:
            return 'wrap', None
        if p == UNKS:
            return 'unk', None
    if t['k'] == 'array':
        n = int(re.search(r'; (\d+)\]$', D.s(ty)).group(1))
        return 'array', n
    if t['k'] == 'param':
        return 'self', None
    return 'one', None


def adt_path(D, ty):
    return D.tys[ty]['path'] if isinstance(ty, int) and D.tys[ty]['k'] == 'adt' else None


def own_err(m, o):
    """(name, args) of an error this path reports of its own accord"""
    r, v = m.result(o)
    if r != 'err' or v.op != 'agg' or v.a[0] != DERR:
        return None
    return variant_name(m.D, DERR, v.a[1]), v.a[2:]


def failed_event(m, o):
    for ev in all_events(o.events()):
        if ev.kind in ('api', 'de', 'ctx') and (ev.x or {}).get('ok') is False:
            return ev
    return None


def entails(f, op, a, b):
    """a op b on every state of the path"""
    if op == 'eq':
        return f.entails_eq(a, b) or (is_c(b) and const_of(f, a) == cv(b))
    if op == 'lt':
        return refuted(f, mk('lt', (a, b), 'bool'), False) or f.entails_le(lin_plus1(a), b)
    if op == 'le':
        return f.entails_le(a, b)
    if op == 'ne':
        return refuted(f, mk('eq', (a, b), 'bool'), True) or refuted(f, mk('eq', (b, a), 'bool'), True) or \
            f.assume(a_eq(a, b), True) is None
    raise ValueError(op)


def a_eq(a, b):
    return mk('eq', (a, b), 'bool')


def lin_plus1(a):
    return mk('add', (a, C(1, a.ty)), a.ty) if not is_c(a) else C(cv(a) + 1, a.ty)


class Accum:
    """reports of one function"""

    def __init__(self, ck, m):
        self.ck, self.m = ck, m
        self.res = {}
        self.rules = set()

    def bad(self, rule, detail, at=None):
        self.res.setdefault(rule, (detail, at or self.m.at))

    def flush(self, rules):
        for r in rules:
            self.ck.ob(r, self.m.site, r not in self.res, *(self.res.get(r) or ('', None)))
        for r in self.res:
            if r not in rules:
                self.ck.ob(r, self.m.site, False, *self.res[r])


def de_events(o, *names):
    return [ev for ev in all_events(o.events()) if ev.kind == 'de' and ev.name in names]


def entry_after(m, o):
    a = m.args[0]
    ad = m.e.addr_of(a)
    return m.e.load(m.run.st0, ad[0], ad[1]), m.e.load(o.st, ad[0], ad[1])


def too_many(A, o, name, args, full, want, what):
    """a TooMany error is for an accumulator that is full and names the limit"""
    if name == 'FieldOccursTooManyTimes':
        if not full:
            A.bad('accepts-while-room', 'an occurrence is refused although %s' % what)
        if not (is_c(args[1]) and cv(args[1]) in want):
            A.bad('limit-reported', 'the limit reported is %s, not %s' % (show(args[1]), sorted(want)))
        return True
    return False


def is_some_of(v):
    return v.a[2] if v.op == 'agg' and v.a[0] == OPTION and v.a[1] == 1 else None


def field_one(A):
    """accumulator Option<..>: None = not seen yet"""
    m = A.m
    seen_ok = False
    for o in m.outs:
        if o.kind != 'ret':
            continue
        a0, a1 = entry_after(m, o)
        k = variant(m.e, o.st, a0)
        r, v = m.result(o)
        if r == 'ok':
            seen_ok = True
            if k != 0:
                A.bad('one-occurrence', 'a second occurrence of the field is accepted')
            if is_some_of(a1) is None:
                A.bad('occurrence-kept', 'an occurrence of the field is accepted but not kept')
        elif r == 'err':
            w = own_err(m, o)
            fe = failed_event(m, o)
            if w is not None and too_many(A, o, w[0], w[1], k == 1, {1}, 'none was seen before'):
                continue
            if k == 1 and fe is None:
                A.bad('one-occurrence', 'a second occurrence is not reported as FieldOccursTooManyTimes')
            if w is not None and w[0] in ('FieldOccursTooFewTimes', 'RequiredFieldMissing'):
                A.bad('accepts-while-room', 'an occurrence is reported as %s' % w[0])
        else:
            A.bad('one-occurrence', 'unrecognisable outcome')
    if not seen_ok:
        A.bad('accepts-while-room', 'no path accepts an occurrence')
    A.flush(('one-occurrence', 'occurrence-kept', 'accepts-while-room', 'limit-reported'))


def finish_one(A):
    m = A.m
    a0 = m.args[0]
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('finish-reports', 'finish can panic: %s' % o.why)
            continue
        k = variant(m.e, o.st, a0)
        r, v = m.result(o)
        if r == 'ok':
            if k != 1:
                A.bad('missing-reported', 'a value is made up for a field that did not occur')
            elif v is not m.e.proj(a0, ('v', 1, 0)):
                A.bad('value-kept', 'the value returned is not the one deserialised')
        elif r == 'err':
            w = own_err(m, o)
            if w is None or w[0] != 'RequiredFieldMissing':
                A.bad('missing-reported', 'a missing field is reported as %s' % (w[0] if w else 'something else'))
            if k != 0:
                A.bad('finish-reports', 'an error is reported although the field occurred')
    A.flush(('missing-reported', 'value-kept', 'finish-reports'))


def finish_opt(A):
    m = A.m
    a0 = m.args[0]
    for o in m.outs:
        r, v = m.result(o) if o.kind == 'ret' else (None, None)
        if r != 'ok':
            A.bad('finish-reports', 'finish of an optional field can fail')
            continue
        k = variant(m.e, o.st, a0)
        same = v is a0 or (k == 0 and v.op == 'agg' and v.a[1] == 0) or \
            (k == 1 and is_some_of(v) is m.e.proj(a0, ('v', 1, 0)))
        if not same:
            A.bad('value-kept', 'the value returned is not the one accumulated')
    A.flush(('finish-reports', 'value-kept'))


def finish_self(A):
    """the accumulator is the value"""
    m = A.m
    for o in m.outs:
        r, v = m.result(o) if o.kind == 'ret' else (None, None)
        if r != 'ok':
            A.bad('finish-reports', 'finish of a collection can fail')
        elif v is not m.args[0]:
            A.bad('value-kept', 'the collection returned is not the one accumulated')
    A.flush(('finish-reports', 'value-kept'))


def only_item(t):
    """the item of something that yields exactly one: Some(x), iter::once(x), [x]"""
    while t.op == 'agg':
        if t.a[0] == 'core::option::Option':
            return t.a[2] if t.a[1] == 1 else None
        if t.a[0] == 'array' and len(t.a) == 3:
            return t.a[2]
        if len(t.a) != 3 or t.a[0] not in ('core::iter::sources::once::Once', 'core::option::IntoIter',
                                           'core::option::Item'):
            return None
        t = t.a[2]
    return None


def field_grow(A, op):
    m = A.m
    ad = m.e.addr_of(m.args[0])
    seen_ok = False
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('accepts-while-room', 'panics: %s' % o.why)
            continue
        r, v = m.result(o)
        w = own_err(m, o)
        if w is not None and failed_event(m, o) is None:
            A.bad('accepts-while-room', 'an item of a collection is refused with %s' % w[0])
        if r != 'ok':
            continue
        seen_ok = True
        gr = [ev for ev in all_events(o.events()) if growth(m, ev) is not None]
        el = [ev for ev in de_events(o, 'element', 'field')]
        if len(gr) != 1 or len(el) != 1:
            A.bad('occurrence-kept', 'an occurrence adds %d items to the collection' % len(gr))
            continue
        ev = gr[0]
        name = growth(m, ev)
        single = only_item(ev.args[1]) if name == 'extend' and len(ev.args) == 2 else None
        if single is not None:
            name = op               # by what the collection does to extend itself by one item
        if name != op and not (op == 'push_back' and name == 'push'):
            A.bad('order-kept', 'items are added with %s, not at the end with %s' % (name, op), ev.site)
        tgt = m.e.addr_of(ev.args[0])
        if tgt[0] != ad[0] or tgt[1] != ad[1]:
            A.bad('occurrence-kept', 'the item is added to something other than the accumulator', ev.site)
        item = el[0].x['v']
        vals = list(ev.args[1:]) if single is None else [single]
        if adt_path(m.D, m.self_ty) in MAPS:
            want = [m.e.proj(item, ('f', 0)), m.e.proj(item, ('f', 1))]
            if single is not None:
                vals = [m.e.proj(single, ('f', 0)), m.e.proj(single, ('f', 1))]
        else:
            want = [item]
        if len(vals) != len(want) or any(x is not y for x, y in zip(vals, want)):
            A.bad('value-kept', 'what is added to the collection is not the item deserialised', ev.site)
    if not seen_ok:
        A.bad('accepts-while-room', 'no path accepts an item')
    A.flush(('accepts-while-room', 'occurrence-kept', 'order-kept', 'value-kept'))


def field_vec(A):
    m = A.m
    seen = set()
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('accepts-while-room', 'panics: %s' % o.why)
            continue
        a0, a1 = entry_after(m, o)
        b0 = m.e.proj(a0, ('f', 0), 'bool')
        b1, v1 = m.e.proj(a1, ('f', 0), 'bool'), m.e.proj(a1, ('f', 1))
        full = o.st.f.decide(b0)
        r, v = m.result(o)
        vec = [ev for ev in de_events(o, 'vec') if not ev.x.get('none')]
        el = de_events(o, 'element', 'field')
        w = own_err(m, o)
        if r == 'ok':
            if vec:
                seen.add('slice')
                if full is not False:
                    A.bad('one-occurrence', 'a second blob is accepted for a vector of bytes')
                if not (is_c(b1) and cv(b1)):
                    A.bad('occurrence-kept', 'the blob is not marked as seen')
                if v1 is not vec[0].x['v']:
                    A.bad('value-kept', 'the vector kept is not the one read from the blob')
            else:
                seen.add('item')
                if not el:
                    A.bad('occurrence-kept', 'an occurrence is accepted without being deserialised')
                    continue
                if not (v1.op == 'vpush' and v1.a[0] is m.e.proj(a0, ('f', 1)) and v1.a[1] is el[0].x['v']):
                    A.bad('order-kept', 'the item is not added at the end of the vector')
                if b1 is not b0:
                    A.bad('occurrence-kept', 'an item is counted as a blob')
        elif w is not None:
            if too_many(A, o, w[0], w[1], full is True and bool(de_events(o, 'vec')) and
                        not any(e.x.get('none') for e in de_events(o, 'vec')), {1}, 'there is room'):
                continue
            if failed_event(m, o) is None:
                A.bad('accepts-while-room', 'an item is refused with %s' % w[0])
    if seen != {'slice', 'item'}:
        A.bad('accepts-while-room', 'no path accepts %s' % sorted({'slice', 'item'} - seen))
    A.flush(('one-occurrence', 'accepts-while-room', 'occurrence-kept', 'order-kept', 'value-kept', 'limit-reported'))


def as_slice(f):
    """does the element type of this path travel as a blob? True / False / None"""
    for t, k in f.known.items():
        if t.op == 'pure' and t.a[0] == 'as_slice':
            return bool(k)
    return None


def finish_vec(A):
    m = A.m
    a0 = m.args[0]
    b0 = m.e.proj(a0, ('f', 0), 'bool')
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('finish-reports', 'finish can panic: %s' % o.why)
            continue
        r, v = m.result(o)
        s, b = as_slice(o.st.f), o.st.f.decide(b0)
        if r == 'ok':
            if v is not m.e.proj(a0, ('f', 1)):
                A.bad('value-kept', 'the vector returned is not the one accumulated')
            if not (s is False or b is True):
                A.bad('missing-reported', 'a missing blob becomes an empty vector')
        else:
            w = own_err(m, o)
            if w is None or w[0] != 'RequiredFieldMissing':
                A.bad('missing-reported', 'a missing blob is reported as something else')
            if not (s is True and b is False):
                A.bad('finish-reports', 'an error is reported although the vector is complete')
    A.flush(('finish-reports', 'value-kept', 'missing-reported'))


def field_array(A, n):
    m, e = A.m, A.m.e
    seen = set()
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('accepts-while-room', 'panics: %s' % o.why)
            continue
        f = o.st.f
        a0, a1 = entry_after(m, o)
        r, v = m.result(o)
        w = own_err(m, o)
        el = de_events(o, 'element', 'field')
        bulk = [ev for ev in all_events(o.events()) if ev.kind == 'de' and
                (ev.name.startswith('array') or ev.name in ('slice', 'vec'))]
        handled = [ev for ev in bulk if not ev.x.get('none')]
        small = m_accum(m, ARRACC)
        if small:
            k = variant(e, o.st, a0)
            c0 = e.proj(a0, ('v', 0, 0), 'usize')
            arr0 = e.proj(a0, ('v', 0, 1))
            empty = k == 0 and entails(f, 'eq', c0, C(0, 'usize'))
            nonempty = k == 1 or (k == 0 and entails(f, 'ne', c0, C(0, 'usize')))
            room = k == 0 and entails(f, 'lt', c0, C(n, 'usize'))
            full = k == 1 or (k == 0 and entails(f, 'le', C(n, 'usize'), c0))
        else:
            c0 = e.proj(a0, ('f', 0), 'usize')
            arr0 = e.proj(a0, ('f', 1))
            empty = entails(f, 'eq', c0, C(0, 'usize'))
            nonempty = entails(f, 'ne', c0, C(0, 'usize'))
            room = entails(f, 'lt', c0, C(n, 'usize'))
            full = entails(f, 'le', C(n, 'usize'), c0)
        if r == 'ok':
            if handled:
                seen.add('bulk')
                if not empty:
                    A.bad('one-occurrence', 'a second blob is accepted for an array')
                if small:
                    good = a1.op == 'agg' and a1.a[1] == 1 and a1.a[2] is handled[0].x['v']
                else:
                    c1 = e.proj(a1, ('f', 0), 'usize')
                    good = is_c(c1) and cv(c1) == n and e.proj(a1, ('f', 1)) is handled[0].x.get('dst_after')
                if not good:
                    A.bad('value-kept', 'the array kept is not the one read from the blob')
                continue
            seen.add('item')
            if not room:
                A.bad('one-occurrence', 'more than %d items are accepted' % n)
            if not el:
                A.bad('occurrence-kept', 'an occurrence is accepted without being deserialised')
                continue
            if small:
                if a1.op == 'agg' and a1.a[1] == 0:
                    c1, arr1 = a1.a[2], a1.a[3]
                elif variant(e, o.st, a1) == 0 or (a1.op == 'upd' and k == 0):
                    c1, arr1 = e.proj(a1, ('v', 0, 0), 'usize'), e.proj(a1, ('v', 0, 1))
                else:
                    A.bad('occurrence-kept', 'the accumulator is left in an unexpected state')
                    continue
                item = is_some_of(e.proj(arr1, ('i', c0)))
            else:
                c1, arr1 = e.proj(a1, ('f', 0), 'usize'), e.proj(a1, ('f', 1))
                item = e.proj(arr1, ('i', c0))
            if not entails(f, 'eq', c1, mk('add', (c0, C(1, 'usize')), 'usize')):
                A.bad('occurrence-kept', 'the number of items seen does not go up by one')
            whole = arr1.op == 'upd' and arr1.a[0] is arr0 and len(arr1.a[1]) == 1
            if arr1.op == 'agg' and is_c(c0):
                whole = True
            if item is not el[0].x['v'] or not whole:
                A.bad('order-kept', 'item i of the array is not the i-th one deserialised')
        elif w is not None:
            if w[0] == 'FieldOccursTooManyTimes':
                ok_full = (nonempty if handled else full)
                too_many(A, o, w[0], w[1], ok_full, {1} if handled else {n}, 'there is room')
            elif failed_event(m, o) is None:
                A.bad('accepts-while-room', 'an item is refused with %s' % w[0])
    want = {'bulk', 'item'} if n > 0 else {'bulk'}
    if not want <= seen:
        A.bad('accepts-while-room', 'no path accepts %s' % sorted(want - seen))
    A.flush(('one-occurrence', 'accepts-while-room', 'occurrence-kept', 'order-kept', 'value-kept', 'limit-reported'))


def m_accum(m, path):
    """does the accumulator of this function have this type?"""
    b = m.D.bodies[str(m.root['inst'])]
    t = m.D.kt(b['locals'][1])
    if m.name == 'deserialize_field':
        t = m.D.deref_ty(t)
    return adt_path(m.D, t) == path


def finish_array(A, n):
    m, e = A.m, A.m.e
    a0 = m.args[0]
    small = m_accum(m, ARRACC)
    for o in m.outs:
        f = o.st.f
        k = variant(e, o.st, a0) if small else 0
        c0 = e.proj(a0, ('v', 0, 0), 'usize') if small else e.proj(a0, ('f', 0), 'usize')
        arr0 = e.proj(a0, ('v', 0, 1)) if small else e.proj(a0, ('f', 1))
        full = k == 0 and entails(f, 'le', C(n, 'usize'), c0)
        if o.kind != 'ret':
            # the first c0 slots are filled (every accepted item fills slot c0 and adds one)
            hole = any(variant(e, o.st, e.proj(arr0, ('i', C(i, 'usize')))) == 0 for i in range(n))
            if not (small and full and hole):
                A.bad('finish-reports', 'finish can panic: %s' % o.why)
            continue
        r, v = m.result(o)
        if r == 'ok':
            if k == 1:
                if v is not e.proj(a0, ('v', 1, 0)):
                    A.bad('value-kept', 'the array returned is not the one read from the blob')
                continue
            if not full:
                A.bad('missing-reported', 'an array with fewer than %d items is accepted' % n)
            if small:
                items = list(v.a[2:]) if v.op == 'agg' else []
                if n == 0:
                    continue
                if len(items) != n or any(x is not e.proj(e.proj(arr0, ('i', C(i, 'usize'))), ('v', 1, 0))
                                          for i, x in enumerate(items)):
                    A.bad('value-kept', 'item i of the array is not the i-th one deserialised')
            elif v is not arr0:
                A.bad('value-kept', 'the array returned is not the one accumulated')
        else:
            w = own_err(m, o)
            short_ = k == 0 and entails(f, 'lt', c0, C(n, 'usize'))
            if not short_:
                A.bad('finish-reports', 'an error is reported although the array is complete')
            if w is None:
                A.bad('missing-reported', 'an incomplete array is reported as something else')
            elif w[0] == 'RequiredFieldMissing':
                if not entails(f, 'eq', c0, C(0, 'usize')):
                    A.bad('missing-reported', 'an incomplete array is reported as missing')
            elif w[0] == 'FieldOccursTooFewTimes':
                s = as_slice(f)
                want = {1} if s else {n} if s is False else {n}
                if not entails(f, 'ne', c0, C(0, 'usize')):
                    A.bad('missing-reported', 'a missing array is reported as incomplete')
                if not (is_c(w[1][1]) and cv(w[1][1]) in want):
                    A.bad('limit-reported', 'the minimum reported is %s, not %s' % (show(w[1][1]), sorted(want)))
            else:
                A.bad('missing-reported', 'an incomplete array is reported as %s' % w[0])
    A.flush(('finish-reports', 'missing-reported', 'value-kept', 'limit-reported'))


def unwrapped(v, w):
    """is v the value w in a box / reference counter / Cow / Copied?"""
    for _ in range(6):
        if v is w:
            return True
        if v.op == 'box':
            v = v.a[0]
        elif v.op == 'agg' and len(v.a) == 3 and (v.a[0] in WRAPS):
            v = v.a[2]
        elif v.op == 'pure' and v.a[0] in ('wrap',):
            v = v.a[1]
        else:
            return False
    return False


def field_wrap(A):
    m = A.m
    ad = m.e.addr_of(m.args[0])
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('inner-decides', 'panics: %s' % o.why)
            continue
        d = de_events(o, 'field')
        if len(d) != 1 or len(de_events(o, 'element', 'body', 'finish')):
            A.bad('inner-decides', 'the occurrence is not handed to the wrapped type')
            continue
        x = d[0].x
        if x.get('accum_addr') is None or x['accum_addr'][0] != ad[0] or x['accum_addr'][1] != ad[1]:
            A.bad('inner-decides', 'the accumulator is not the one of the wrapped type')
        if m.origin(x['field']) != 'own-field':
            A.bad('inner-decides', 'another field is handed on')
    A.flush(('inner-decides',))


def finish_wrap(A):
    m = A.m
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('inner-decides', 'panics: %s' % o.why)
            continue
        d = de_events(o, 'finish')
        if len(d) != 1 or d[0].x['accum'] is not m.args[0]:
            A.bad('inner-decides', 'the accumulator is not finished by the wrapped type')
            continue
        r, v = m.result(o)
        if r == 'ok' and not (d[0].x.get('ok') and wraps(m, o, v, d[0].x['v'])):
            A.bad('value-kept', 'the value returned is not the one of the wrapped type')
    A.flush(('inner-decides', 'value-kept'))


def wraps(m, o, v, w):
    """v is w itself, or w put in the smart pointer by one constructor call"""
    if unwrapped(v, w):
        return True
    for ev in all_events(o.events()):
        if ev.kind == 'call' and ev.ret is v and len(ev.args) == 1 and unwrapped(ev.args[0], w) and \
                ev.name.split('::')[-1] in ('new', 'from', 'into'):
            return True
    return False


def rule_cardinality(ck, m):
    """the accumulator of the type accepts as many occurrences as the type stands for"""
    kind, x = category(m.D, m.self_ty)
    A = Accum(ck, m)
    if m.name not in ('deserialize_field', 'finish') or kind == 'self':
        return None
    isf = m.name == 'deserialize_field'
    if kind == 'one':
        field_one(A) if isf else finish_one(A)
    elif kind == 'opt':
        field_one(A) if isf else finish_opt(A)
    elif kind == 'grow':
        field_grow(A, x) if isf else finish_self(A)
    elif kind == 'vec':
        field_vec(A) if isf else finish_vec(A)
    elif kind == 'array':
        field_array(A, x) if isf else finish_array(A, x)
    elif kind == 'wrap':
        field_wrap(A) if isf else finish_wrap(A)
    elif kind == 'unk':
        field_unk(A) if isf else finish_self(A)
    return kind


def field_unk(A):
    m, e = A.m, A.m.e
    ok_seen = False
    for o in m.outs:
        if o.kind != 'ret':
            A.bad('accepts-while-room', 'panics: %s' % o.why)
            continue
        r, v = m.result(o)
        if r != 'ok':
            if failed_event(m, o) is None:
                A.bad('accepts-while-room', 'an unknown field is refused')
            continue
        ok_seen = True
        a0, a1 = entry_after(m, o)
        el = de_events(o, 'element', 'field')
        l1 = e.proj(a1, ('f', 0))
        tag = e.proj(m.field, ('f', m.tagix), 'u8')
        if len(el) != 1:
            A.bad('occurrence-kept', 'a field is accepted without being kept')
        elif not (l1.op == 'vpush' and l1.a[0] is e.proj(a0, ('f', 0)) and l1.a[1].op == 'agg' and
                  l1.a[1].a[2] is tag and l1.a[1].a[3] is el[0].x['v']):
            A.bad('order-kept', 'the field is not added, with its tag, at the end of the list')
    if not ok_seen:
        A.bad('accepts-while-room', 'no path accepts a field')
    A.flush(('accepts-while-room', 'occurrence-kept', 'order-kept'))


# ---------------------------------------------------------------- accumulators in use

def rule_assembly(ck, m):
    """every accumulator starts empty, receives the occurrences of its field and nothing
    else, is finished once, and the result is made of what the accumulators held"""
    A = Accum(ck, m)
    n = 0
    for o in m.outs:
        if o.kind != 'ret':
            continue
        n += assembly(A, m, o)
    if n:
        A.flush(('starts-empty', 'occurrences-accumulate', 'finished-once', 'made-of-parts'))
    return n


def assembly(A, m, o):
    cells = {}      # address -> current symbol
    whose = {}      # address -> type read into it
    own = m.e.addr_of(m.args[0]) if m.name == 'deserialize_field' else None
    n = 0
    fin = []
    used = 0
    evs = o.events()
    r, v = m.result(o)

    def key(ad):
        return None if ad is None else (ad[0], ad[1])

    def fresh_default(t):
        if t.op == 'sym' and t in m.prod and m.prod[t].kind == 'default':
            return True
        if t.op == 'agg':
            if t.a[0] == OPTION:
                return t.a[1] == 0
            if t.a[0] == ARRACC:
                return t.a[1] == 0 and is_c(t.a[2]) and cv(t.a[2]) == 0
            if t.a[0] == LARGEACC:
                return is_c(t.a[2]) and cv(t.a[2]) == 0
            if t.a[0] == 'tuple' and len(t.a) > 2:
                return is_c(t.a[2]) and not cv(t.a[2])
            return all(fresh_default(x) for x in t.a[2:] if isinstance(x, T)) and len(t.a) > 2
        if t.op in ('vnil',):
            return True
        return False

    for ev in evs:
        if ev.kind == 'loop':
            syms = {(r_, p): (v0, nv) for r_, p, part, v0, nv in ev.x['syms'] if part is None}
            mine = {}
            for seg, sst in ev.x['segs']:
                for e2 in seg:
                    if e2.kind == 'de' and e2.name == 'field':
                        k = key(e2.x.get('accum_addr'))
                        if k == key(own):
                            continue
                        used += 1
                        whose[k] = e2.x.get('self_ty')
                        if k not in syms:
                            A.bad('starts-empty', 'the accumulator of a field does not outlive the occurrence', e2.site)
                            continue
                        v0, nv = syms[k]
                        if k in cells:
                            if v0 is not cells[k]:
                                A.bad('starts-empty', 'an accumulator is overwritten', e2.site)
                        elif not fresh_default(v0):
                            A.bad('starts-empty', 'the accumulator of a field does not start out empty', e2.site)
                        if e2.x['accum'] is not nv:
                            A.bad('occurrences-accumulate', 'an occurrence does not see what was accumulated before',
                                  e2.site)
                        mine[k] = nv
                        aft = m.e.load(sst, k[0], k[1])
                        if e2.x.get('ok') and aft is not e2.x.get('accum_after'):
                            A.bad('occurrences-accumulate', 'what an occurrence accumulated is lost', e2.site)
                    if e2.kind == 'de' and e2.name == 'finish':
                        A.bad('finished-once', 'a field is finished before the end of the struct', e2.site)
            for seg, sst in ev.x['segs']:
                touched = {key(e2.x.get('accum_addr')) for e2 in seg if e2.kind == 'de' and e2.name == 'field'}
                for k, nv in mine.items():
                    if k not in touched and m.e.load(sst, k[0], k[1]) is not nv:
                        A.bad('occurrences-accumulate', 'what was accumulated is lost when another field is read')
            cells.update(mine)
            continue
        if ev.kind == 'de' and ev.name == 'field':
            k = key(ev.x.get('accum_addr'))
            if k == key(own):
                continue
            used += 1
            whose[k] = ev.x.get('self_ty')
            if k not in cells and not fresh_default(ev.x['accum']):
                A.bad('starts-empty', 'the accumulator of a field does not start out empty', ev.site)
            if k in cells and cells[k] is not ev.x['accum']:
                A.bad('occurrences-accumulate', 'an occurrence does not see what was accumulated before', ev.site)
            cells[k] = ev.x.get('accum_after')
        if ev.kind == 'de' and ev.name == 'finish' and m.name != 'finish':
            used += 1
            hit = [k for k, c in cells.items() if c is ev.x['accum']]
            if not hit:
                if not fresh_default(ev.x['accum']):
                    A.bad('finished-once', 'something other than the accumulated occurrences is finished', ev.site)
                elif not any(k[0] in [(r_) for r_ in ()] for k in ()):
                    pass
            for k in hit:
                if k in fin:
                    A.bad('finished-once', 'an accumulator is finished twice', ev.site)
                fin.append(k)
            if ev.x.get('ok') and r == 'ok' and ev.x['v'].op != 'agg' and not within(v, ev.x['v']) and \
                    not passed_on(m, o, ev.x['v'], v):
                A.bad('made-of-parts', 'the value of a field is dropped', ev.site)
    if r == 'ok' and m.name != 'finish':
        for k in cells:
            if k not in fin and not (within(v, cells[k]) and trivial_finish(A.ck, m.D, whose.get(k))):
                A.bad('finished-once', 'success although a field was not finished: a missing field goes unnoticed')
    return used


def trivial_finish(ck, D, ty):
    """does finishing a field of this type always just yield what was accumulated?"""
    if not isinstance(ty, int) or D.tys[ty]['k'] != 'adt':
        return False
    for r in D.roots:
        if r.get('impl_trait') != DE or r['name'] != 'finish' or str(r['inst']) not in D.bodies:
            continue
        t = r.get('impl_self')
        if not isinstance(t, int) or D.tys[t]['k'] != 'adt' or D.tys[t]['path'] != D.tys[ty]['path']:
            continue
        f = Method(ck, HL(D), r)
        return bool(f.outs) and all(
            o.kind == 'ret' and not o.events() and o.val.op == 'agg' and o.val.a[0] == RESULT and
            o.val.a[1] == 0 and o.val.a[2] is f.args[0] for o in f.outs)
    return False


def passed_on(m, o, x, v):
    """x is an argument of a constructor call whose result v is made of"""
    done = {x}
    for ev in all_events(o.events()):
        if ev.kind in ('call', 'str') and ev.ret is not None and any(
                isinstance(a, T) and any(within(a, d) for d in done) for a in ev.args):
            done.add(ev.ret)
            if within(v, ev.ret):
                return True
    return any(within(v, d) for d in done)
