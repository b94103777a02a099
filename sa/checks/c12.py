"""C12: a field may occur as often as its type stands for."""
from codec import *


def run(ck):
    ms = de_all(ck)
    kinds = {}
    for m in ms:
        k = rule_cardinality(ck, m)
        if k:
            kinds[k] = kinds.get(k, 0) + 1
    n = sum(rule_assembly(ck, m) for m in ms)
    for k, least in (('one', 40), ('opt', 2), ('grow', 14), ('vec', 2), ('array', 60), ('wrap', 8), ('unk', 2)):
        ck.floor('accumulators of kind ' + k, kinds.get(k, 0), least)
    ck.floor('uses of accumulators', n, 100)
