"""Fixed-size byte strings."""
from lib import native
from lib.check import Check


def run():
    c = Check("C24", "one byte string built, extracted, compared, serialised or parsed as one fixed_bytes<size, word>, against a plain byte array")
    native.run(c, "fixed", c.n(250, 12000))
    return c.finish(100000)
