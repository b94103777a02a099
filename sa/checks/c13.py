"""C13: the number of collection items decoded is limited by max_collect."""
from ctxlib import *


def run(ck):
    charge_rules(ck, 'collect', 'max_collect', 'MaxCollectExceeded', 'collect')
    default_rules(ck, {'max_collect': 256})
    n = sum(rule_collect(ck, m) for m in de_all(ck))
    ck.floor('places where a collection grows', n, 9)
