"""C15: every level of nesting costs one level of recursion, up to recursion_limit."""
from ctxlib import *


def run(ck):
    push_rules(ck)
    push_tag_rules(ck)
    default_rules(ck, {'recursion_limit': 32})
    n = sum(rule_nest(ck, m) for m in de_all(ck))
    ck.floor('uses of a context', n, 400)
    ck.floor('nested deserialisations', sum(nested(m) for m in de_all(ck)), 60)


def nested(m):
    return sum(1 for o in m.outs for ev in all_events(o.events())
               if ev.kind == 'de' and m.origin(ev.x['field'] if ev.x.get('field') is not None else
                                               ev.x.get('stream') or UNIT) in ('child', 'childsub'))
