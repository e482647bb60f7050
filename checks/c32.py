"""Failed checks are exceptions with the message given."""
from lib import native
from lib.check import Check


def run():
    c = Check("C32", "one check stated with a true or false condition, in each of the ways the library offers: what is thrown, and what it says after the message's own storage is gone")
    native.run(c, "check", c.n(40000, 4000000))
    return c.finish(100000)
