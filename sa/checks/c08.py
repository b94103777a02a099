"""C08: input that ends early is reported; end of input is taken for the end of the
document only at an element boundary and only when that was asked for."""
from wirelib import *
from streamlib import *
from checks.c04 import lin_eq, same_int
from checks.c05 import public_ops, is_stream_ref
from checks.c06 import le, add, sub, lin_same
from checks.c07 import root_of_path, prepare, is_tracker_ref

READS = {'decode_descriptor', 'decode_u64', 'decode_i64', 'read', 'read_exact', 'read_to_end'}


def run(ck):
    L = Lib(ck)
    tracker(ck, L)
    flags(ck, L)
    skipping(ck, L)


def tracker(ck, L):
    D = ck.D
    n = 0
    for x in D.roots:
        if x['name'] != 'read' or str(x['inst']) not in D.bodies:
            continue
        b = D.bodies[str(x['inst'])]
        if b['argc'] != 2 or not is_tracker_ref(L, D, b['locals'][1]):
            continue
        tp = D.tys[D.tys[b['locals'][1]]['t']]['path']
        ff = L.R.trackers[tp][1]
        r = L.run(x['path'], 'tracker')
        basic(ck, r)
        e = r.e
        root_, path = e.addr_of(r.args[0])
        flag = e.load(r.st0, root_, path + (('f', ff),), 'bool') if ff is not None else FALSE
        buf = r.args[1]
        for o in r.rets():
            n += 1
            f = o.st.f
            good, val = result_of(e, o)
            evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
            if not good:
                continue
            if not evs:
                ck.ob('reader-honest', r.name, not f.feasible([lin_sub(lin(e.length(buf)), ({}, 1))]),
                      'Ok without reading', r.at)
                continue
            k = evs[-1].x.get('k')
            if len(evs) == 1 and evs[0].name == 'read' and lin_same(f, val, k):
                # faithful; with the flag set an empty read must not get through as data
                ck.ob('reader-honest', r.name, True)
                continue
            okk = len(evs) == 1 and not f.feasible([lin_sub(lin(k), ({}, 1))]) and \
                refuted(f, flag, False) and is_c(val) and cv(val) == 1
            if okk:
                ev2 = Ev(evs[0].kind, 'read', (), None, None, dict(o.st.mem), f, {'buf': buf})
                root2, path2 = e.addr_of(buf) if buf.op != 'slice' else (buf.a[0][0], buf.a[0][1])
                b0 = e.load(o.st, root2, path2 + (('i', C(0, 'usize')),), 'u8')
                okk = ext_bits(f, b0, 8) == [0, 0, 0, 0, 0, 0, 1, 0]
            ck.ob('reader-honest', r.name, okk,
                  'bytes are reported that the underlying object did not deliver', r.at)
    ck.floor('outcomes of the position tracking reader', n, 4)


def flags(ck, L):
    """which reads treat the end of input as an element"""
    n = nd = 0
    D = ck.D
    for p in public_ops(D):
        b = D.bodies[str(root(D, p)['inst'])]
        if not b['argc'] or not is_stream_ref(D, b['locals'][1]):
            continue
        r = L.run(p, 'stream', pre=prepare(L, 'stream', root(D, p)['name']))
        e = r.e
        grace0 = L.field(r, r.st0, L.R.graceful, 'bool')
        for o in r.rets():
            good, val = result_of(e, o) if o.val.op == 'agg' and o.val.a[0].endswith('Result') else (None, None)
            evs = [ev for ev in flat(o.events()) if L.on(r, ev) and ev.name in READS]
            for ev in evs:
                n += 1
                ob = ev.x.get('obj')
                while ob is not None and ob.kind == 'take':
                    ob = ob.inner
                fl = ob.flag if ob is not None and ob.kind == 'tracker' and ob.flag is not None else FALSE
                if ev.name == 'decode_descriptor':
                    nd += 1
                    g = L.field(r, L.at_event(ev), L.R.graceful, 'bool')
                    okk = fl is g or (is_c(fl) and refuted(ev.f, g, not bool(cv(fl)))) or \
                        same_flag(ev.f, fl, g)
                    ck.ob('graceful-flag', r.name, okk,
                          'whether end of input ends the document is not what was configured', r.at)
                else:
                    okk = refuted(ev.f, fl, True)
                    ck.ob('strict-inside-element', r.name, okk,
                          'end of input inside an element (%s) may be taken for data' % ev.name, r.at)
                if not ev.x['ok']:
                    ck.ob('truncation-reported', r.name, good is False and contains(val, ev.x['err']),
                          'end of input during %s is not reported' % ev.name, r.at)
                if ev.x.get('substituted'):
                    g = L.field(r, L.at_event(ev), L.R.graceful, 'bool')
                    ck.ob('graceful-only-if-set', r.name, refuted(ev.f, g, False),
                          'end of input ends the document although that was not enabled', r.at)
            if evs and good is not False:
                # a blob that had to be settled: nothing but commit was needed
                pass
        # the setting is the caller's
        if root(D, p)['name'] != 'set_graceful_eof':
            for o in r.rets():
                ck.ob('setting-kept', r.name, L.field(r, o.st, L.R.graceful, 'bool') is grace0,
                      'the end of input setting changes', r.at)
    ck.floor('reads by the stream layer', n, 60)
    ck.floor('descriptor reads', nd, 40)


def same_flag(f, a, b):
    return refuted_pair(f, a, b, True, False) and refuted_pair(f, a, b, False, True)


def refuted_pair(f, a, b, x, y):
    g = f.assume(a, x)
    return g is None or g.assume(b, y) is None


def skipping(ck, L):
    """settling a blob opened for reading passes over exactly its unread bytes"""
    D = ck.D
    fns = [p for p, opener in settlement_fns(L).items() if opener.endswith('next_element')]
    ck.floor('settlement of blobs being read', len(fns), 1)
    for p in fns:
        def pre(e, st, args, addr, env):
            f = st.f.copy()
            f.rows = f.rows + (lin_sub(lin(env.fld(e, st, addr, L.R.blob_end)), lin(env.pos(e, st, addr))),)
            st.f = f
        r = L.run(root_of_path(D, p)['path'], 'stream', pre=pre)
        basic(ck, r)
        e = r.e
        end = L.field(r, r.st0, L.R.blob_end)
        p0 = L.pos(r, r.st0)
        n = 0
        for o in r.rets():
            n += 1
            f = o.st.f
            good, val = result_of(e, o)
            evs = [ev for ev in flat(o.events()) if L.on(r, ev)]
            p1 = L.pos(r, o.st)
            if good:
                ck.ob('skip-complete', r.name, lin_same(f, p1, end),
                      'Ok although the position is not at the end of the blob', r.at)
                by_seek = [ev for ev in evs if ev.name.startswith('seek') and ev.x['ok']]
                got = [ev for ev in evs if ev.name not in ('seek', 'seekfn') and ev.x['ok']]
                if by_seek and not got:
                    ck.ob('skip-verified', 'blob opened by next_element/skipped by seeking', False,
                          'bytes are passed over by seeking without any evidence that they exist', r.at)
                else:
                    ck.ob('skip-verified', 'blob opened by next_element', True)
            elif evs and not evs[-1].x['ok'] and contains(val, evs[-1].x['err']):
                ck.ob('skip-error', r.name, True)
            elif is_err_variant(D, val, ERR, 'TruncatedBlob'):
                ck.ob('skip-truncation', r.name, lin_same(f, add(p1, val.a[2]), end) and
                      not f.feasible([lin_sub(({}, 0), lin(val.a[2]))]),
                      'the number of missing bytes is wrong', r.at)
            else:
                # refusal: the position cannot advance
                ff = f.copy()
                ff.rows = ff.rows + (lin_sub(({}, MAXU), lin(end)),)
                ck.ob('skip-error', r.name, not ff.consistent(),
                      'an error is returned that no operation reported', r.at)
        ck.floor('outcomes of skipping a blob', n, 8)
        ck.ob('skip-truncation-possible', r.name,
              any(result_of(e, o)[0] is False and is_err_variant(D, result_of(e, o)[1], ERR, 'TruncatedBlob')
                  for o in r.rets()), 'a blob that ends early is never reported while skipping', r.at)
