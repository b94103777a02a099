"""C01: variable length integers are encoded and decoded exactly."""
from wirelib import *

W = 'fourleaf::wire::'


def run(ck):
    D = ck.D
    hooks = env_hooks(D)
    encode(ck, D, hooks)
    fixed(ck, D, hooks)
    decode(ck, D, hooks)


def byte_spec(f, v, bs, last_cont):
    """problem text or None: bs are the 7-bit groups of v, little endian"""
    vb = ext_bits(f, v, 64)
    n = len(bs)
    for k, b in enumerate(bs):
        bb = ext_bits(f, b, 8)
        for j in range(7):
            i = 7 * k + j
            want = vb[i] if i < 64 else 0
            if bb[j] != want:
                return 'bit %d of byte %d is not bit %d of the value' % (j, k, i)
        want = 1 if k < n - 1 else 0
        if bb[7] != want:
            return 'continuation bit of byte %d of %d is not %d' % (k, n, want)
    for i in range(7 * n, 64):
        if vb[i] != 0:
            return 'bit %d of the value is not written (only %d bytes)' % (i, n)
    return None


def encode(ck, D, hooks):
    run = analyse(ck, W + 'encode_u64', hooks)
    basic(ck, run)
    lens = set()
    for o in run.rets():
        good, val = result_of(run.e, o)
        bs, failed, why = written(run.e, o)
        site = run.name
        if why:
            ck.fail('encode-shape', site, why, run.at)
            continue
        if good is None:
            ck.fail('encode-shape', site, 'result is not determined', run.at)
            continue
        if good:
            if not ck.ob('encode-error-reported', site, failed is None,
                         'Ok is returned although a write failed', run.at):
                continue
            p = byte_spec(o.st.f, run.args[1], bs, 0)
            ck.ob('encode-exact', '%s/%d-byte path' % (site, len(bs)), p is None, p, run.at)
            lens.add(len(bs))
            n = len(bs)
            if n > 1:
                top = run.e.shift(o.st.f, 'shr', run.args[1], C(7 * (n - 1), 'u32'), 'u64')
                ck.ob('encode-shortest', '%s/%d-byte path' % (site, n),
                      refuted(o.st.f, run.e.eq(top, C(0, 'u64'))),
                      'a value whose %d-th byte would be zero is written with %d bytes' % (n, n), run.at)
            ck.ob('encode-shortest', '%s/%d-byte path bound' % (site, n), 1 <= n <= 10,
                  '%d bytes written' % n, run.at)
        else:
            ck.ob('encode-error-reported', site, failed is not None and err_is_io(D, val, failed.x['err']),
                  'an error is returned that no write reported', run.at)
    ck.ob('encode-total', run.name, lens == set(range(1, 11)),
          'successful paths write %s bytes, expected every length 1..10' % sorted(lens), run.at)


def fixed(ck, D, hooks):
    run = analyse(ck, W + 'encode_fixed_u64', hooks)
    basic(ck, run)
    n = 0
    for o in run.rets():
        good, val = result_of(run.e, o)
        bs, failed, why = written(run.e, o)
        if why or good is None:
            ck.fail('fixed-shape', run.name, why or 'result is not determined', run.at)
            continue
        if good:
            n += 1
            p = 'Ok although a write failed' if failed is not None else None
            if p is None and len(bs) != 10:
                p = '%d bytes written instead of 10' % len(bs)
            if p is None:
                p = byte_spec(o.st.f, run.args[1], bs, 0)
            ck.ob('fixed-exact', run.name, p is None, p, run.at)
        else:
            ck.ob('fixed-error-reported', run.name, failed is not None and err_is_io(D, val, failed.x['err']),
                  'an error is returned that no write reported', run.at)
    ck.floor('fixed width encoder success paths', n, 1)


def decode(ck, D, hooks):
    run = analyse(ck, W + 'decode_u64', hooks)
    basic(ck, run)
    oks = set()
    ovf = wide = ioe = 0
    for o in run.rets():
        good, val = result_of(run.e, o)
        bs, failed, why = read_bytes(run.e, o)
        site = run.name
        if why or good is None:
            ck.fail('decode-shape', site, why or 'result is not determined', run.at)
            continue
        f = o.st.f
        m = len(bs)
        rb = [ext_bits(f, b, 8) for b in bs]
        if failed is not None:
            ioe += 1
            ck.ob('decode-truncation-reported', site, not good and err_is_io(D, val, failed.x['err']),
                  'input ended inside the integer but the reader\'s error is not returned', run.at)
            continue
        p = None
        for k in range(m - 1):
            if rb[k][7] != 1:
                p = 'byte %d has no continuation bit, yet byte %d is consumed' % (k, k + 1)
        payload = [rb[k][j] for k in range(m) for j in range(7)]
        if good:
            if p is None and m == 0:
                p = 'a value is returned without consuming a byte'
            if p is None and rb[m - 1][7] != 0:
                p = 'decoding stops after byte %d although its continuation bit may be set' % (m - 1)
            if p is None and m > 257:
                p = 'more than 257 bytes accepted'
            if p is None:
                vb = ext_bits(f, val, 64)
                for i, x in enumerate((payload + [0] * 64)[:64]):
                    if vb[i] != x:
                        p = 'bit %d of the result is not bit %d of byte %d' % (i, i % 7, i // 7)
                        break
                if p is None and any(payload[64:]):
                    p = 'non-zero payload beyond bit 63 is dropped'
            ck.ob('decode-exact', '%s/%d-byte path' % (site, m), p is None, p, run.at)
            oks.add(m)
        else:
            if is_err_variant(D, val, ERR, 'IntegerOverflow'):
                ovf += 1
                if p is None:
                    # some payload bit beyond 63 must be set on this path
                    hi = frozenset(payload[64:]) - {0}
                    if not (1 in hi or (hi and zero_refuted(f, hi))):
                        p = 'overflow reported although the value may fit 64 bits'
                ck.ob('decode-overflow-genuine', '%s/%d-byte path' % (site, m), p is None, p, run.at)
            elif is_err_variant(D, val, ERR, 'OverwideInteger'):
                wide += 1
                if p is None and not (m >= 257 and rb[m - 1][7] == 1):
                    p = 'over-wide error after only %d bytes' % m
                ck.ob('decode-overwide-genuine', '%s/%d-byte path' % (site, m), p is None, p, run.at)
            else:
                ck.fail('decode-errors', site, 'unexpected error %s' % show(val), run.at)
    ck.ob('decode-total', run.name, oks == set(range(1, 258)),
          'values of 1..257 bytes should be decodable; success paths exist for %d lengths%s' % (
              len(oks), '' if not oks else ' up to %d' % max(oks)), run.at)
    ck.floor('overflow paths', ovf, 1)
    ck.floor('over-wide paths', wide, 1)
    ck.floor('truncation paths', ioe, 1)


def zero_refuted(f, masks):
    """is it impossible that all masks are zero"""
    sub = f.bsub
    for m in masks:
        sub = bit_assume_zero(m, sub)
        if sub is None:
            return True
    # a recorded disequality over a subset of these bits
    for ms in f.bneq:
        r = frozenset(bit_reduce(m, sub) for m in ms) - {0}
        if not r:
            return True
    return False
