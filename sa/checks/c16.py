"""C16: fields and variants a type does not know are skipped or refused as configured."""
from ctxlib import *


def run(ck):
    unknown_rules(ck)
    default_rules(ck, {'ignore_unknown_fields': True})
    n = sum(1 for m in de_all(ck) if rule_unknown(ck, m) is not None)
    ck.floor('functions that read the fields of a struct', n, 20)
    n = sum(1 for m in de_all(ck) if rule_variants(ck, m) is not None)
    ck.floor('functions that read an enum', n, 3)
