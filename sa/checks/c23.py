"""C23: the top-level functions read or write exactly one whole value."""
from hlrules import *
from serlib import *
from streamlib import Lib, StreamEnv, S
import checks.c05 as c05

CURSOR = 'fourleaf::io::TransparentCursor'
NEWS = ('new', 'new_seek', 'from_slice')


def run(ck):
    D = ck.D
    hl = HL(D)
    nd = ns = 0
    for r in D.roots:
        if not (r['vis'] and r['reach']) or str(r['inst']) not in D.bodies or r.get('impl_self') is not None:
            continue
        p = r['path']
        if re.match(r'^fourleaf::de::from_\w+$', p):
            nd += 1
            reader(ck, Method(ck, hl, r))
        elif re.match(r'^fourleaf::ser::to_\w+$', p):
            ns += 1
            writer(ck, Method(ck, hl, r))
    ck.floor('functions reading one value', nd, 5)
    ck.floor('functions writing one value', ns, 3)
    constructors(ck)
    L = Lib(ck)
    c05.slot_writers(ck, L, c05.public_ops(D))


def events(o):
    return [ev for ev in all_events(o.events())
            if not (ev.kind == 'call' and ev.name and 'Cursor' in ev.name)]


def new_of(m, o, t):
    """the thing a stream object was created over, or None"""
    for ev in o.events():
        if ev.kind == 'api' and ev.name in NEWS and ev.x.get('v') is t:
            a = ev.args[0]
            if ev.name != 'from_slice' and a.op == 'agg' and a.a[0] == CURSOR:
                for e2 in o.events():
                    if e2.kind == 'call' and e2.ret is a.a[2] and e2.name and e2.name.endswith('::new'):
                        return 'bytes', e2.args[0]
            return ('bytes' if ev.name == 'from_slice' else 'io'), a
    return None


def same_arg(m, a, i):
    """a is argument i itself, or what it refers to, whole"""
    x = m.args[i]
    return a is x or (a.op == 'deref' and a.a[0] is x) or (
        a.op == 'slice' and False) or (a.op in ('ref',) and x.op == 'ref' and a.a == x.a)


def stream_ok(ck, m, o, t, kind):
    """the stream value used is the caller's or a new one over the caller's object"""
    x = m.args[0]
    if kind == 'stream':
        return t.op == 'deref' and t.a[0] is x
    got = new_of(m, o, t)
    if kind == 'vec':
        return got is not None and got[0] == 'io' and (got[1].op == 'vnil' or (
            got[1].op == 'ref' and any(ev.kind == 'ser' and ev.x['dst'] is t and ev.x['under'].op == 'vnil'
                                       for ev in o.events())))
    if kind == 'slice':
        return got is not None and got[0] == 'bytes' and same_arg(m, got[1], 0)
    return got is not None and got[0] == 'io' and got[1] is x


def arg_kind(ck, m, writes):
    """how the function is given its stream, from its parameter types"""
    D = ck.D
    b = D.bodies[str(m.root['inst'])]
    tys = [b['locals'][i + 1] for i in range(b['argc'])]
    if writes and len(tys) == 1:
        return 'vec', 0
    t = D.tys[tys[0]]
    if t['k'] == 'ref':
        a = D.tys[t['t']]
        if a['k'] == 'adt':
            return 'stream', 1
        if a['k'] == 'slice':
            return 'slice', 1
    return 'io', 1


def reader(ck, m):
    D = ck.D
    kind, ci = arg_kind(ck, m, False)
    # the style promised by the name: only the borrowing functions may borrow
    want = 'ZeroCopy' if m.name.endswith('_borrow') else 'Copying'
    n = 0
    for o in m.outs:
        n += 1
        if o.kind != 'ret':
            ck.fail('returns', m.site, '%s: %s' % (o.kind, o.why), o.site)
            continue
        good, val = result_of(m.e, o)
        evs = events(o)
        bodies = [ev for ev in evs if ev.kind == 'de']
        bad = None
        for ev in evs:
            if ev.kind == 'api' and ev.name not in NEWS + ('commit',):
                bad = 'does %s on a stream' % ev.name
            elif ev.kind == 'api' and ev.name == 'commit' and not ev.x['ok'] and not (
                    good is False and val is ev.x['err']):
                bad = 'a failed commit is not reported'
            elif ev.kind in ('ser', 'loop', 'io'):
                bad = '%s %s' % (ev.kind, ev.name)
        ck.ob('nothing-else', m.site, bad is None, bad, m.at)
        fine = len(bodies) == 1 and bodies[0].name == 'body'
        ck.ob('one-value', m.site, fine or (good is False and not bodies and any(
            'ok' in (ev.x or {}) and not ev.x['ok'] and val is ev.x['err'] for ev in evs)),
            'decodes %d values' % len(bodies), m.at)
        if not fine:
            continue
        ev = bodies[0]
        ck.ob('own-stream', m.site, stream_ok(ck, m, o, ev.x['stream'], kind),
              'reads from %s' % show(ev.x['stream'])[:120], m.at)
        c = ev.x['ctx']
        ok_ctx = c.op == 'pure' and c.a[0] == 'ctx.top' and same_arg(m, c.a[1], ci)
        ck.ob('own-config', m.site, ok_ctx, 'decodes in context %s' % show(c)[:120], m.at)
        st = ev.x['style']
        sn = D.s(st) if isinstance(st, int) else str(st)
        ck.ob('style', m.site, sn.endswith(want), 'decodes with style %s' % sn, m.at)
        if ev.x['ok']:
            ck.ob('result', m.site, good is True and val is ev.x['v'] or good is False and any(
                e2.name == 'commit' and not e2.x['ok'] for e2 in evs),
                'the decoded value is not what is returned', m.at)
        else:
            ck.ob('result', m.site, good is False and val is ev.x['err'],
                  'the error of decoding is not what is returned', m.at)
    ck.floor('outcomes of ' + m.name, n, 2)


def writer(ck, m):
    kind, _ = arg_kind(ck, m, True)
    vi = 0 if kind == 'vec' else 1
    n = 0
    for o in m.outs:
        n += 1
        if o.kind != 'ret':
            ck.fail('returns', m.site, '%s: %s' % (o.kind, o.why), o.site)
            continue
        good, val = result_of(m.e, o)
        evs = events(o)
        bodies = [ev for ev in evs if ev.kind == 'ser']
        commits = [ev for ev in evs if ev.kind == 'api' and ev.name == 'commit']
        bad = None
        for ev in evs:
            if ev.kind == 'api' and ev.name not in NEWS + ('commit', 'into_inner', 'get_ref'):
                bad = 'does %s on a stream' % ev.name
            elif ev.kind in ('de', 'loop', 'io'):
                bad = '%s %s' % (ev.kind, ev.name)
        ck.ob('nothing-else', m.site, bad is None, bad, m.at)
        failed = [ev for ev in evs if 'ok' in (ev.x or {}) and not ev.x['ok']]
        if failed:
            ck.ob('result', m.site, good is False and val is failed[0].x['err'],
                  'the first error is not what is returned', m.at)
        if len(failed) and not bodies:
            continue
        fine = len(bodies) == 1 and bodies[0].name == 'body'
        ck.ob('one-value', m.site, fine, 'encodes %d values' % len(bodies), m.at)
        if not fine:
            continue
        ev = bodies[0]
        src = ev.x['src']
        ck.ob('own-value', m.site, same_arg(m, src, vi), 'encodes %s' % show(src)[:100], m.at)
        ck.ob('own-stream', m.site, stream_ok(ck, m, o, ev.x['dst'], kind),
              'writes to %s' % show(ev.x['dst'])[:120], m.at)
        if good is not True:
            ck.ob('result', m.site, bool(failed), 'fails although nothing failed', m.at)
            continue
        last = commits[-1] if commits else None
        ck.ob('committed', m.site, last is not None and last.x['ok'] and evs.index(last) > evs.index(ev)
              and last.x['self'] is ev.x['dst'], 'the stream is not committed after the value was written', m.at)
        if kind == 'vec':
            fin = val.op == 'pure' and val.a[0] == 'into_inner' and val.a[1] is ev.x['dst'] or (
                val is ev.x.get('under_after'))
            ii = [e2 for e2 in evs if e2.name == 'into_inner']
            if ii and last is not None:
                fin = fin and evs.index(ii[-1]) > evs.index(last)
            ck.ob('result', m.site, fin, 'returns %s' % show(val)[:100], m.at)
        else:
            ck.ob('result', m.site, True, '', m.at)
    ck.floor('outcomes of ' + m.name, n, 3)


def constructors(ck):
    """a new stream starts at offset 0, outside any structure, with nothing pending"""
    L = Lib(ck)
    D, R = ck.D, L.R
    n = 0
    for r in D.roots:
        p = r['path']
        if not p.startswith('fourleaf::stream::Stream::<') or r['name'] not in NEWS + ('into_inner', 'get_ref'):
            continue
        if str(r['inst']) not in D.bodies:
            continue
        run_ = analyse(ck, p, StreamEnv(D, R).hooks)
        site, at, e = short(p), '%s:%s' % (r['file'], r['line']), run_.e
        for o in run_.outs:
            n += 1
            if o.kind != 'ret':
                ck.fail('returns', site, '%s: %s' % (o.kind, o.why), o.site)
                continue
            if r['name'] == 'into_inner':
                want = e.proj(run_.args[0], ('f', R.inner))
                ck.ob('into-inner', site, o.val is want, 'returns %s' % show(o.val)[:100], at)
                continue
            if r['name'] == 'get_ref':
                a = e.addr_of(o.val)
                root_, path = e.addr_of(run_.args[0])
                ck.ob('into-inner', site, a == (root_, path + (('f', R.inner),)),
                      'returns %s' % show(o.val)[:100], at)
                continue
            new_stream(ck, D, R, run_, o, r['name'], site, at)
    ck.floor('outcomes of stream constructors', n, 5)


def new_stream(ck, D, R, run_, o, name, site, at):
    e = run_.e
    f = lambda i: e.proj(o.val, ('f', i))
    inner = f(R.inner)
    if name == 'from_slice':
        fine = False
        if inner.op == 'agg' and inner.a[0] == CURSOR:
            for ev in o.events():
                if ev.kind == 'call' and ev.ret is inner.a[2] and ev.name == 'core::io::cursor::Cursor::<T>::new':
                    fine = ev.args[0] is run_.args[0]
    else:
        fine = inner is run_.args[0]
    ck.ob('new-over', site, fine, 'the stream is over %s' % show(inner)[:100], at)
    vs = D.tys[R.stream_ty]['vs'][0]['f']
    for i, (fname, ty) in enumerate(vs):
        if i in (R.inner, R.seekf):
            continue
        v = f(i)
        if i == R.commit:
            d = e.discr(v, 'isize')
            ck.ob('new-state', site, is_c(d) and cv(d) == 0, 'a settlement is pending from the start', at)
        else:
            ck.ob('new-state', site, is_c(v) and not cv(v), '%s starts as %s' % (fname, show(v)[:60]), at)
    sk = f(R.seekf)
    d = e.discr(sk, 'isize')
    if is_c(d) and cv(d) == 0:
        return
    ck.ob('new-seek', site, name != 'new' and is_c(d) and re.search(r'Seek>?::seek\b', show(sk)) is not None,
          'skips with %s' % show(sk)[:100], at)
