"""Bit precise view of the byte level of one outcome."""
from lib import *


def env_hooks(D):
    return StreamEnv(D, Roles(D)).hooks


def buf_bytes(e, ev):
    """byte terms of the (constant length) buffer of a read/write event"""
    buf = ev.x['buf']
    mem = ev.mem
    if buf.op == 'slice':
        root_, path = buf.a[0]
        off, ln = buf.a[1], buf.a[2]
        if not (is_c(off) and is_c(ln)):
            return None
        st = St(dict(mem), ev.f, None)
        return [e.load(st, root_, path + (('i', C(cv(off) + i, 'usize')),), 'u8') for i in range(cv(ln))]
    if buf.op == 'refc' and buf.a[0].op in ('agg', 'bytes'):
        v = buf.a[0]
        if v.op == 'bytes':
            return [C(x, 'u8') for x in v.a[0]]
        return list(v.a[2:])
    if buf.op == 'bytes':
        return [C(x, 'u8') for x in buf.a[0]]
    if buf.op == 'vslice':
        v, r = buf.a[0], []
        while v.op == 'vpush':
            r.append(v.a[1])
            v = v.a[0]
        return r[::-1] if v.op == 'vnil' else None
    return None


def written(e, o):
    """(bytes written by the successful writes, failing event or None, problem)"""
    bs = []
    failed = None
    for ev in o.events():
        if ev.kind == 'push':
            continue                # a buffer being filled
        if ev.kind != 'io':
            return None, None, 'unexpected %s %s' % (ev.kind, ev.name)
        if failed is not None:
            return None, None, 'I/O continues after a failed write'
        if ev.name != 'write_all':
            return None, None, 'bytes written through %s (a short write would go unnoticed)' % ev.name
        if not ev.x['ok']:
            failed = ev
            continue
        b = buf_bytes(e, ev)
        if b is None:
            return None, None, 'buffer of unknown length'
        bs += b
    return bs, failed, None


def read_bytes(e, o):
    bs = []
    failed = None
    for ev in o.events():
        if ev.kind != 'io':
            return None, None, 'unexpected %s %s' % (ev.kind, ev.name)
        if failed is not None:
            return None, None, 'I/O continues after a failed read'
        if ev.name != 'read_exact':
            return None, None, 'bytes read through %s (a short read would go unnoticed)' % ev.name
        if not ev.x['ok']:
            failed = ev
            continue
        ev2 = Ev(ev.kind, ev.name, ev.args, ev.ret, ev.site, ev.x['after'], ev.f, ev.x)
        b = buf_bytes(e, ev2)
        if b is None:
            return None, None, 'buffer of unknown length'
        bs += b
    return bs, failed, None


def err_is_io(D, val, err):
    """the error value is (a wrapper of) the I/O error `err`"""
    return contains(val, err)
