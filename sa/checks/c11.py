"""C11: what is serialised deserialises to an equal value."""
from roundtrip import *
from checks import c10, c12
UNK = ("fourleaf::unknown::UnknownFields<'_>", "fourleaf::unknown::UnknownField<'_>")


def run(ck):
    t = Trip(ck)
    ck.floor('conversions of SerializeAs', identity_conversions(ck, t), 60)
    delegates(ck, t)
    rule_bulk(ck, t)
    n = rule_roundtrip(ck, t, UNK)
    ck.floor('types matched', n, 100)
    c12.run(ck)         # how often a field is accepted, and all occurrences end up in the value
    c10.run(ck)         # fields under their tags, structs closed; stream operations byte for byte (C01-C04)
