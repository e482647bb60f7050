"""Round trips of compiled C++ values through binary and JSON."""
from lib import native
from lib.check import Check


def run():
    c = Check("C10", "one random value of one compiled type encoded, decoded (fresh and used destinations, trailing data), truncated, and sent through compact and formatted JSON")
    native.run(c, "round", c.n(250, 12000))
    return c.finish(100000)
