"""C10: whatever is serialised, the output is well formed."""
from serlib import *
from checks import c04


def run(ck):
    ms = ser_all(ck)
    n = sum(rule_wellformed(ck, m) for m in ms)
    ck.floor('serialising functions', len(ms), 60)
    ck.floor('outcomes of serialising functions', n, 200)
    c04.run(ck)         # what each stream operation counted above writes, byte for byte
