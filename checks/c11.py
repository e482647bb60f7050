"""Agreement of the output streams; bounds of fixed buffers and inputs."""
from lib import native
from lib.check import Check


def run():
    c = Check("C11", "one value (binary, JSON, formatted JSON or key form) written to one stream of one capacity, or one read or write of a random stream history, compared with a byte-array model")
    native.run(c, "stream", c.n(60, 3000))
    return c.finish(100000)
