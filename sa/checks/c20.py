"""C20: deserialising a value consumes exactly that value."""
from hlrules import *


def run(ck):
    n = 0
    ms = de_all(ck)
    for m in ms:
        for o in m.outs:
            n += 1
            if o.kind in ('stuck', 'unreachable'):
                ck.fail('terminates-normally', m.site, '%s: %s' % (o.kind, o.why), o.site)
        rule_consume(ck, m)
    ck.floor('deserialising functions', len(ms), 380)
    ck.floor('outcomes of deserialising functions', n, 2000)
