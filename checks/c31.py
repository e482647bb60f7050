"""Arithmetic, order and conversion of time values, counters and symbols."""
from lib import native
from lib.check import Check


def run():
    c = Check("C31", "one operation on time values, durations, block slots, counters or symbols: result and operands against 128-bit integer arithmetic, wherever the result is representable")
    native.run(c, "value", c.n(12000, 1500000))
    return c.finish(100000)
