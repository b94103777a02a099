"""Contracts of the standard library functions the crate calls (the trusted base).
Each model receives a CallCtx and returns the list of outcomes."""
from terms import *

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def _agg(kind, variant, *fs):
    return mk('agg', (kind, variant) + tuple(fs))


UNIT = mk('agg', ('tuple', 0))
OPT = 'core::option::Option'
RES = 'core::result::Result'


def some(x):
    return _agg(OPT, 1, x)


NONE = _agg(OPT, 0)


# --- Try / From plumbing -------------------------------------------------
@model('core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def _ident(c):
    return c.ret(c.args[0])


@model('<T as core::convert::From<T>>::from')
def _from_self(c):
    return c.ret(c.args[0])


# --- slices -----------------------------------------------------------------
@model('core::slice::<impl [T]>::len', 'core::str::<impl str>::len')
def _len(c):
    return c.ret(c.e.length(c.args[0]))


@model('core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty')
def _is_empty(c):
    return c.ret(c.e.eq(c.e.length(c.args[0]), C(0, 'usize')))


def array_to_slice(c, v, ty):
    """&[T;N] -> slice term"""
    D = c.e.D
    it = D.deref_ty(ty) if ty is not None else None
    if isinstance(it, int) and D.tys[it]['k'] == 'array' and D.tys[it].get('n') is not None:
        root, path = c.e.addr_of(v)
        return mk('slice', ((root, path), C(0, 'usize'), C(D.tys[it]['n'], 'usize')))
    return v


def index_range(c, base, idx, idxty):
    """slice indexing by a usize or a range, forking into the panic outcome"""
    e = c.e
    D = e.D
    n = e.length(base)
    t = D.tys[idxty] if isinstance(idxty, int) else None
    path = t['path'] if t is not None and t['k'] == 'adt' else None
    if idxty == 'usize' or (idx.ty == 'usize'):
        res = []
        for s, v in e.branch(c.st, e.lt(idx, n)):
            if v:
                root, p = e.slice_elem_addr(base, idx)
                res += c.ret(e.mkref(root, p), s)
            else:
                res += c.panic('index out of bounds', s)
        return res
    F = lambda i: e.proj(idx, ('f', i), 'usize')
    if path == 'core::ops::range::RangeFull':
        return c.ret(base)
    lo = C(0, 'usize')
    if path == 'core::ops::range::RangeTo':
        hi = F(0)
    elif path == 'core::ops::range::RangeFrom':
        lo = F(0)
        hi = n
    elif path == 'core::ops::range::Range':
        lo, hi = F(0), F(1)
    elif path == 'core::ops::range::RangeToInclusive':
        hi = e.arith(c.st.f, 'add', F(0), C(1, 'usize'), 'usize')
    elif path == 'core::ops::range::RangeInclusive':
        lo = F(0)
        hi = e.arith(c.st.f, 'add', F(1), C(1, 'usize'), 'usize')
    else:
        return None
    res = []
    for s, v in e.branch(c.st, e.lt(n, hi)):
        if v:
            res += c.panic('range end out of bounds', s)
            continue
        for s2, v2 in e.branch(s, e.lt(hi, lo)):
            if v2:
                res += c.panic('range start after end', s2)
            else:
                res += c.ret(e.subslice(base, lo, e.arith(s2.f, 'sub', hi, lo, 'usize')), s2)
    return res


@model('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index',
       'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut')
def _slice_index(c):
    return index_range(c, c.args[0], c.args[1], c.argtys[1])


@model('core::array::<impl core::ops::index::Index<I> for [T; N]>::index',
       'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut')
def _array_index(c):
    return index_range(c, array_to_slice(c, c.args[0], c.argtys[0]), c.args[1], c.argtys[1])


@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _slice_get(c):
    r = index_range(c, c.args[0], c.args[1], c.argtys[1])
    if r is None:
        return None
    out = []
    for o in r:
        if o.kind == 'ret':
            out += c.ret(some(o.val), o.st)
        else:
            out += c.ret(NONE, o.st)
    return out


@model('core::slice::<impl [T]>::first')
def _slice_first(c):
    e = c.e
    out = []
    for s, v in e.branch(c.st, e.eq(e.length(c.args[0]), C(0, 'usize'))):
        if v:
            out += c.ret(NONE, s)
        else:
            root, p = e.slice_elem_addr(c.args[0], C(0, 'usize'))
            out += c.ret(some(e.mkref(root, p)), s)
    return out


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut')
def _split_at(c):
    e = c.e
    out = []
    n = e.length(c.args[0])
    mid = c.args[1]
    for s, v in e.branch(c.st, e.lt(n, mid)):
        if v:
            out += c.panic('split_at out of bounds', s)
        else:
            a = e.subslice(c.args[0], C(0, 'usize'), mid)
            b = e.subslice(c.args[0], mid, e.arith(s.f, 'sub', n, mid, 'usize'))
            out += c.ret(_agg('tuple', 0, a, b), s)
    return out


@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr')
def _as_ptr(c):
    return c.ret(mk('asptr', (c.args[0],), c.rty))


@model('core::array::<impl [T; N]>::as_slice', 'core::array::<impl [T; N]>::as_mut_slice')
def _array_as_slice(c):
    return c.ret(array_to_slice(c, c.args[0], c.argtys[0]))


@model('core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref',
       'core::array::<impl core::convert::AsMut<[T]> for [T; N]>::as_mut')
def _array_asref(c):
    return c.ret(array_to_slice(c, c.args[0], c.argtys[0]))


@model('<[T] as core::convert::AsRef<[T]>>::as_ref', '<[T] as core::convert::AsMut<[T]>>::as_mut',
       'core::str::<impl str>::as_bytes',
       'core::str::<impl core::convert::AsRef<[u8]> for str>::as_ref',
       '<str as core::convert::AsRef<[u8]>>::as_ref',
       'core::str::converts::<impl core::convert::AsRef<[u8]> for str>::as_ref',
       'core::str::<impl core::convert::AsRef<str> for str>::as_ref')
def _slice_asref(c):
    v = c.args[0]
    return c.ret(v)


@model('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def _copy_from_slice(c):
    e = c.e
    out = []
    a, b = c.args
    for s, v in e.branch(c.st, e.eq(e.length(a), e.length(b))):
        if not v:
            out += c.panic('copy_from_slice length mismatch', s)
            continue
        n = e.length(a)
        if is_c(n) and cv(n) <= 64:
            for i in range(cv(n)):
                r1, p1 = e.slice_elem_addr(a, C(i, 'usize'))
                r2, p2 = e.slice_elem_addr(b, C(i, 'usize'))
                e.store(s, r1, p1, e.load(s, r2, p2, 'u8'))
        else:
            root, path = e.addr_of(a)
            e.store(s, root, path, fresh('copied', None))
        out += c.ret(UNIT, s)
    return out


# iterators over slices: a pair (slice, position) kept as a shrinking slice
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut',
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter")
def _slice_iter(c):
    return c.ret(_agg('core::slice::iter::Iter', 0, c.args[0]))


@model("core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter",
       "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter")
def _arr_iter(c):
    return c.ret(_agg('core::slice::iter::Iter', 0, array_to_slice(c, c.args[0], c.argtys[0])))


@model("<core::slice::iter::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next",
       "<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _iter_next(c):
    e = c.e
    root, path = e.addr_of(c.args[0])
    it = e.load(c.st, root, path)
    if it.op != 'agg' or it.a[0] != 'core::slice::iter::Iter':
        r = c.fresh('next')
        e.store(c.st, root, path, fresh('iter', it.ty))
        return c.ret(r)
    sl = it.a[2]
    if sl.op in ('sym', 'vslice', 'havoc', 'proj', 'deref', 'refc'):
        sl = mk('slice', ((('h', sl), ()), C(0, 'usize'), e.length(sl)))
    n = e.length(sl)
    out = []
    for s, v in e.branch(c.st, e.eq(n, C(0, 'usize'))):
        if v:
            out += c.ret(NONE, s)
        else:
            r1, p1 = e.slice_elem_addr(sl, C(0, 'usize'))
            rest = mk('slice', (sl.a[0], e.add(sl.a[1], C(1, 'usize'), 'usize'),
                                e.sub(n, C(1, 'usize'), 'usize')))
            e.store(s, root, path, _agg('core::slice::iter::Iter', 0, rest))
            elem = e.mkref(r1, p1, None)
            # keep the static type of the element reference
            t = c.rty
            et = None
            if isinstance(t, int) and e.D.tys[t]['k'] == 'adt':
                et = e.D.kt(e.D.tys[t]['args'][0]) if e.D.tys[t]['args'] else None
            if elem.op == 'ref' and et is not None:
                elem = mk('ref', elem.a, et)
            out += c.ret(some(elem), s)
    return out


@model('core::io::cursor::Cursor::<T>::position', 'std::io::cursor::Cursor::<T>::position')
def _cursor_position(c):
    root, path = c.e.addr_of(c.args[0])
    return c.ret(mk('pure', ('position', c.e.load(c.st, root, path)), 'u64'))


# ranges
@model('<I as core::iter::traits::collect::IntoIterator>::into_iter')
def _into_iter_id(c):
    return c.ret(c.args[0])


@model('core::iter::range::<impl core::iter::traits::iterator::Iterator for core::ops::range::Range<A>>::next')
def _range_next(c):
    e = c.e
    root, path = e.addr_of(c.args[0])
    r = e.load(c.st, root, path)
    lo = e.proj(r, ('f', 0))
    hi = e.proj(r, ('f', 1))
    if lo.ty not in INTS:
        return None
    out = []
    for s, v in e.branch(c.st, e.lt(lo, hi)):
        if v:
            e.store(s, root, path + (('f', 0),), e.arith(s.f, 'add', lo, C(1, lo.ty), lo.ty))
            out += c.ret(some(lo), s)
        else:
            out += c.ret(NONE, s)
    return out


# --- integers -----------------------------------------------------------------
def _int_methods():
    for ty in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128'):
        p = 'core::num::<impl %s>::' % ty
        s, n = INTS[ty]

        if not s:
            def lz(c, n=n):
                v = c.args[0]
                if is_c(v):
                    return c.ret(C(n - cv(v).bit_length(), 'u32'))
                return c.ret(mk('lz', (v,), 'u32'))
            MODELS[p + 'leading_zeros'] = lz

        def wrapping(o, ty=ty):
            def f(c):
                out = []
                for st, v in c.e.overflowing(c.st, o, c.args[0], c.args[1], ty):
                    out += c.ret(v.a[2], st)
                return out
            return f

        def checked(o, ty=ty):
            def f(c):
                out = []
                for st, v in c.e.overflowing(c.st, o, c.args[0], c.args[1], ty):
                    d = cv(v.a[3])
                    out += c.ret(NONE if d else some(v.a[2]), st)
                return out
            return f

        def overflowing(o, ty=ty):
            def f(c):
                return sum((c.ret(v, st) for st, v in c.e.overflowing(c.st, o, c.args[0], c.args[1], ty)), [])
            return f

        def saturating(o, ty=ty):
            def f(c):
                out = []
                lo, hi = ty_range(ty)
                for st, v in c.e.overflowing(c.st, o, c.args[0], c.args[1], ty):
                    if not cv(v.a[3]):
                        out += c.ret(v.a[2], st)
                    elif not INTS[ty][0]:
                        out += c.ret(C(hi if o != 'sub' else lo, ty), st)
                    else:
                        for s2, neg in c.e.branch(st, c.e.lt(c.args[1], C(0, ty))):
                            b = (lo if neg else hi) if o == 'add' else (hi if neg else lo)
                            out += c.ret(C(b, ty), s2)
                return out
            return f
        for o in ('add', 'sub', 'mul'):
            MODELS[p + 'wrapping_' + o] = wrapping(o)
            MODELS[p + 'checked_' + o] = checked(o)
            MODELS[p + 'overflowing_' + o] = overflowing(o)
            MODELS[p + 'saturating_' + o] = saturating(o)

        def wneg(c, ty=ty):
            out = []
            for st, v in c.e.overflowing(c.st, 'sub', C(0, ty), c.args[0], ty):
                ov = INTS[ty][0] and cv(v.a[3])     # only MIN negates to itself
                out += c.ret(C(ty_range(ty)[0], ty) if ov else v.a[2], st)
            return out
        MODELS[p + 'wrapping_neg'] = wneg

        def cneg(c, ty=ty):
            out = []
            for st, v in c.e.overflowing(c.st, 'sub', C(0, ty), c.args[0], ty):
                out += c.ret(NONE if cv(v.a[3]) else some(v.a[2]), st)
            return out
        MODELS[p + 'checked_neg'] = cneg

        def uabs(c, ty=ty):
            out = []
            ut = 'u' + ty[1:]
            for st, neg in c.e.branch(c.st, c.e.lt(c.args[0], C(0, ty))):
                if neg:
                    t = mk('neg', (c.args[0],), ut)
                    out += c.ret(c.e.canon(t, ut), st)
                else:
                    out += c.ret(c.e.cast_int(st.f, c.args[0], ut), st)
            return out
        if s:
            MODELS[p + 'unsigned_abs'] = uabs

        def frombytes(big, ty=ty, n=n):
            def f(c):
                e, a = c.e, c.args[0]
                k = n // 8
                ut = ty if not INTS[ty][0] else 'u' + ty[1:]
                r = None
                for i in range(k):
                    b = e.cast_int(c.st.f, e.proj(a, ('i', C(i, 'usize')), 'u8'), ut)
                    sh = 8 * ((k - 1 - i) if big else i)
                    b = e.shift(c.st.f, 'shl', b, C(sh, 'u32'), ut) if sh else b
                    r = b if r is None else e.bitop(c.st.f, 'or', r, b, ut)
                return c.ret(r if ut == ty else e.cast_int(c.st.f, r, ty))
            return f
        MODELS[p + 'from_be_bytes'] = frombytes(True)
        MODELS[p + 'from_le_bytes'] = frombytes(False)
        MODELS[p + 'from_ne_bytes'] = frombytes(False)

        def wshift(op, ty=ty, n=n):
            def f(c):
                return c.ret(c.e.shift(c.st.f, op, c.args[0], c.args[1], ty))
            return f
        MODELS[p + 'wrapping_shl'] = wshift('shl')
        MODELS[p + 'wrapping_shr'] = wshift('shr')

        def cshift(op, ty=ty, n=n):
            def f(c):
                out = []
                for st, v in c.e.branch(c.st, c.e.lt(c.args[1], C(n, 'u32'))):
                    out += c.ret(some(c.e.shift(st.f, op, c.args[0], c.args[1], ty)) if v else NONE, st)
                return out
            return f
        MODELS[p + 'checked_shl'] = cshift('shl')
        MODELS[p + 'checked_shr'] = cshift('shr')

        def minmax(which, ty=ty):
            def f(c):
                out = []
                a, b = c.args
                for st, v in c.e.branch(c.st, c.e.lt(b, a) if which == 'min' else c.e.lt(b, a)):
                    if which == 'min':
                        out += c.ret(b if v else a, st)
                    else:
                        out += c.ret(a if v else b, st)
                return out
            return f
        q = 'core::cmp::impls::<impl core::cmp::Ord for %s>::' % ty
        MODELS[q + 'min'] = minmax('min')
        MODELS[q + 'max'] = minmax('max')

        def cmpm(op, ty=ty):
            def f(c):
                e = c.e
                a = e.deref(c.st, c.args[0], ty)
                b = e.deref(c.st, c.args[1], ty)
                t = {'lt': lambda: e.lt(a, b), 'le': lambda: e.le(a, b), 'gt': lambda: e.lt(b, a),
                     'ge': lambda: e.le(b, a), 'eq': lambda: e.eq(a, b),
                     'ne': lambda: e.not_(e.eq(a, b))}[op]()
                return c.ret(t)
            return f
        for o in ('lt', 'le', 'gt', 'ge'):
            MODELS['core::cmp::impls::<impl core::cmp::PartialOrd for %s>::%s' % (ty, o)] = cmpm(o)
        for o in ('eq', 'ne'):
            MODELS['core::cmp::impls::<impl core::cmp::PartialEq for %s>::%s' % (ty, o)] = cmpm(o)

        def pow_(c, ty=ty):
            a, b = c.args
            if is_c(a) and is_c(b):
                v = cv(a) ** cv(b)
                lo, hi = ty_range(ty)
                if lo <= v <= hi:
                    return c.ret(C(v, ty))
                return c.panic('overflow:pow')
            return None
        MODELS[p + 'pow'] = pow_

        # ranges-of-value queries
        MODELS[p + 'is_power_of_two'] = lambda c: c.ret(mk('ispow2', (c.args[0],), 'bool'))
        for src in ('u8', 'u16', 'u32', 'bool', 'char'):
            pass
    # lossless From conversions between integers
    for a in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'bool', 'char', 'usize', 'isize'):
        for b in ('u8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'u128', 'i128'):
            if a == b:
                continue

            def conv(c, b=b):
                return c.ret(c.e.cast_int(c.st.f, c.args[0], b))
            MODELS['core::convert::num::<impl core::convert::From<%s> for %s>::from' % (a, b)] = conv

            def tconv(c, b=b):
                e = c.e
                out = []
                v = c.args[0]
                lo, hi = ty_range(b)
                cnd = mk('notin', (v, b), 'bool')
                for s, bad in e.branch(c.st, cnd):
                    if bad:
                        out += c.ret(_agg(RES, 1, fresh('TryFromIntError', None)), s)
                    else:
                        out += c.ret(_agg(RES, 0, e.cast_int(s.f, v, b)), s)
                return out
            MODELS['core::convert::num::<impl core::convert::TryFrom<%s> for %s>::try_from' % (a, b)] = tconv
            MODELS['core::convert::num::ptr_try_from_impls::<impl core::convert::TryFrom<%s> for %s>::try_from' % (a, b)] = tconv


_int_methods()


# --- panics ------------------------------------------------------------------
@model('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind_fmt',
       'core::panicking::unreachable_default_msg', 'core::panicking::panic_display',
       'core::option::unwrap_failed', 'core::option::expect_failed',
       'core::result::unwrap_failed', 'core::result::unwrap_failed::unwrap_failed_inner',
       'core::slice::index::slice_index_fail', 'std::panicking::begin_panic',
       'core::panicking::panic_explicit', 'core::panicking::assert_failed',
       'core::panicking::panic_nounwind', 'core::panicking::panic_const::panic_const_div_by_zero',
       'core::panicking::unreachable_display', 'core::panicking::assert_failed_inner',
       'std::rt::begin_panic', 'std::process::abort')
def _panic(c):
    return c.panic(c.x['path'])


# --- Cell ----------------------------------------------------------------------
@model('core::cell::Cell::<T>::new')
def _cell_new(c):
    return c.ret(_agg('core::cell::Cell', 0, c.args[0]))


@model('core::cell::Cell::<T>::get')
def _cell_get(c):
    root, path = c.e.addr_of(c.args[0])
    return c.ret(c.e.load(c.st, root, path + (('f', 0),), c.rty))


@model('core::cell::Cell::<T>::set')
def _cell_set(c):
    root, path = c.e.addr_of(c.args[0])
    c.e.store(c.st, root, path + (('f', 0),), c.args[1])
    return c.ret(UNIT)


@model('core::cell::Cell::<T>::replace')
def _cell_replace(c):
    root, path = c.e.addr_of(c.args[0])
    old = c.e.load(c.st, root, path + (('f', 0),), c.rty)
    c.e.store(c.st, root, path + (('f', 0),), c.args[1])
    return c.ret(old)


@model('core::cell::Cell::<T>::into_inner')
def _cell_into(c):
    return c.ret(c.e.proj(c.args[0], ('f', 0), c.rty))


# --- mem -----------------------------------------------------------------------
@model('core::mem::replace')
def _replace(c):
    root, path = c.e.addr_of(c.args[0])
    old = c.e.load(c.st, root, path, c.rty)
    c.e.store(c.st, root, path, c.args[1])
    return c.ret(old)


@model('core::option::Option::<T>::take')
def _opt_take(c):
    root, path = c.e.addr_of(c.args[0])
    old = c.e.load(c.st, root, path, c.rty)
    c.e.store(c.st, root, path, NONE)
    return c.ret(old)


@model('core::option::Option::<T>::replace')
def _opt_replace(c):
    root, path = c.e.addr_of(c.args[0])
    old = c.e.load(c.st, root, path, c.rty)
    c.e.store(c.st, root, path, some(c.args[1]))
    return c.ret(old)


@model('core::mem::take')
def _mem_take(c):
    return None


@model('core::mem::drop', 'core::mem::forget')
def _drop(c):
    return c.ret(UNIT)


# --- smart pointers ---------------------------------------------------------------
@model('alloc::boxed::Box::<T>::new', 'alloc::rcs::rc::Rc::<T>::new', 'alloc::rcs::arc::Arc::<T>::new',
       'alloc::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new')
def _box_new(c):
    nm = c.x['path'].split('::')[-2]
    return c.ret(mk('box', (c.args[0],), c.rty))


# --- Vec / String --------------------------------------------------------------------
VNIL = mk('vnil')


@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity', 'alloc::string::String::new',
       '<alloc::vec::Vec<T> as core::default::Default>::default')
def _vec_new(c):
    return c.ret(VNIL)


@model('alloc::vec::Vec::<T, A>::push')
def _vec_push(c):
    root, path = c.e.addr_of(c.args[0])
    old = c.e.load(c.st, root, path)
    c.e.store(c.st, root, path, mk('vpush', (old, c.args[1]), old.ty))
    c.ev('push', c.x['path'])
    return c.ret(UNIT)


@model('alloc::vec::Vec::<T, A>::len', 'alloc::string::String::len')
def _vec_len(c):
    v = c.e.deref(c.st, c.args[0])
    return c.ret(c.e.veclen(v))


@model('alloc::vec::Vec::<T, A>::is_empty')
def _vec_empty(c):
    v = c.e.deref(c.st, c.args[0])
    return c.ret(c.e.eq(c.e.veclen(v), C(0, 'usize')))


@model('<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
       '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
       '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
       '<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref',
       '<alloc::string::String as core::ops::deref::Deref>::deref',
       '<alloc::string::String as core::convert::AsRef<str>>::as_ref',
       'alloc::string::String::as_bytes', 'alloc::string::String::as_str',
       'alloc::vec::Vec::<T, A>::as_slice',
       'alloc::vec::Vec::<T, A>::as_mut_slice')
def _vec_deref(c):
    v = c.e.deref(c.st, c.args[0])
    return c.ret(mk('vslice', (v,), c.rty))


@model('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index',
       '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut')
def _vec_index(c):
    v = c.e.deref(c.st, c.args[0])
    return index_range(c, mk('vslice', (v,), None), c.args[1], c.argtys[1])


# --- conversions used for messages only -------------------------------------------------
for _n in ('alloc::string::ToString::to_string',
           '<T as alloc::string::ToString>::to_string',
           'alloc::io::error::<impl core::io::error::Error>::new',
           'alloc::string::String::from_utf8_lossy',
           'core::io::error::Error::is_interrupted', 'core::io::error::Error::kind',
           'core::io::util::sink', 'alloc::fmt::format', 'core::fmt::rt::Argument::<\'_>::new_display',
           'core::fmt::Arguments::<\'a>::new', 'core::fmt::Arguments::<\'a>::from_str',
           'core::fmt::rt::Argument::<\'_>::new_debug'):
    def _pure(c, n=_n):
        t = mk('pure', (c.x['path'],) + tuple(c.args), c.rty)
        if c.rty == 'bool':
            t = mk('pure', (c.x['path'],) + tuple(c.args), 'bool')
        return c.ret(t)
    MODELS[_n] = _pure
