"""C21: the first error met is returned, with the path of the value it concerns."""
from ctxlib import *


def run(ck):
    n = 0
    ms = de_all(ck)
    for m in ms:
        rule_errors(ck, m)
        n += rule_label(ck, m)
    ck.floor('deserialising functions', len(ms), 380)
    ck.floor('labelled levels', n, 100)
    push_rules(ck)
    push_tag_rules(ck)
    display_rules(ck)
