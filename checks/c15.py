"""Asset arithmetic."""
from lib import native
from lib.check import Check


def run():
    c = Check("C15", "one operation on one pair of assets, extended assets or an asset and a number: outcome, result, symbol, contract and operands against 128-bit arithmetic")
    native.run(c, "asset", c.n(20000, 1000000))
    return c.finish(100000)
