"""What enumerating a reflected type yields."""
from lib import native
from lib.check import Check


def run():
    c = Check("C26", "one enumeration, write, selection by name or method call on one reflected type, against a hand-written table of names, addresses and published library member names")
    native.run(c, "reflect", c.n(40, 1500), config="asan0")
    return c.finish(20000)
