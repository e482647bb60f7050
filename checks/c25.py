"""Relational operators of reflected and built-in types."""
from lib import native
from lib.check import Check


def run():
    c = Check("C25", "one relational operator on one pair from a set of equal, neighbouring and random values of one type, against an independent three-way comparison (every pair of the set is judged, so triples are consistent)")
    native.run(c, "cmp", c.n(90, 6000))
    return c.finish(100000)
