"""The JSON token stream: tokens in order, exactly once, wrong requests without effect."""
from lib import native
from lib.check import Check


def run():
    c = Check("C33", "one token of a random document peeked at, asked for wrongly and taken, one value skipped, or one damaged document read; judged by the tokens the document was written from")
    native.run(c, "token", c.n(10000, 300000), timeout=None if c.thorough else 200)
    return c.finish(100000)
