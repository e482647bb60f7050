"""Order of binary keys."""
from lib import native
from lib.check import Check


def run():
    c = Check("C12", "one pair of random or neighbouring values of one key-able type: sign of the byte comparison of their keys against an independent comparison of the values, and neither key a prefix of the other")
    native.run(c, "key", c.n(120, 6000))
    return c.finish(100000)
