"""C14: the bytes copied into new buffers are limited by max_blob."""
from ctxlib import *


def run(ck):
    charge_rules(ck, 'blob', 'max_blob', 'MaxBlobExceeded', 'blob')
    default_rules(ck, {'max_blob': 65536})
    n = sum(rule_blob(ck, m) for m in de_all(ck))
    ck.floor('places where a blob is copied', n, 5)
