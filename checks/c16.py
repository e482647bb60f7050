"""Integers: every 8- and 16-bit value, edges and random values of the wider types, and texts at and beyond every boundary."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from .scal import Run


def run():
    c = Check("C16", "a case is one integer printed from its binary form, or one JSON text parsed, through the compiled type and the ABI type; all 8-bit (thorough: "
              "16-bit) values, texts within 3 of each bound, tenfold and wrapped values, malformed texts; judged against arbitrary-precision integers; distinct by type and text")
    p = Plan(c, build("vh"))
    x = Run(c, p)
    integers(c, x, R.INTS)
    p.run()
    # the library's own 128-bit integers, for compilers without them
    p = Plan(c, build("vhn"), "vhn")
    integers(c, Run(c, p, "portable-"), ("int128", "uint128"))
    p.run()
    return c.finish(1000)


def integers(c, x, names):
    r = c.rng
    for n in names:
        sc = R.SCALARS[n]
        x.standard(n, c.n(600, 4000))
        near = {b + d for b in (sc.lo, sc.hi, 0, sc.lo * 10, sc.hi * 10, sc.lo // 10 * 10, sc.hi // 10 * 10, 1 << sc.bits, -(1 << sc.bits),
                                1 << 32, 1 << 64, 1 << 128, -(1 << 63), -(1 << 127), 1 << 31, 1 << 63, 1 << 127, 10 * (1 << sc.bits)) for d in range(-3, 4)}
        near |= {k * (1 << sc.bits) + r.randrange(sc.lo, sc.hi) for k in (1, 2, 3, 9, 10, 11, -1, -2)} | {10 ** k for k in range(45)} | {-10 ** k for k in range(45)}
        for v in sorted(near):
            for q in (True, False): x.text(n, R.T(str(v), q), "boundary")
        # every value with one more digit than the largest, near the point where a tenfold overflows
        for m in (sc.hi // 10, sc.hi // 10 + 1, (1 << sc.bits) // 10, (1 << sc.bits) // 10 + 1, -sc.lo // 10, -sc.lo // 10 + 1):
            for d in range(10):
                x.text(n, R.T(str(m * 10 + d), False), "tenfold")
                x.text(n, R.T(str(-(m * 10 + d)), False), "tenfold")
        for ch in "0123456789:;/.-+eExX, ":
            for s in (ch, ch + "1", "1" + ch, "1" + ch + "1", "-" + ch): x.text(n, R.T(s), "characters")
        bits = 8 if sc.bits == 8 else 16 if sc.bits == 16 and c.thorough else 0
        vals = range(sc.lo, sc.hi + 1) if bits else sorted({s * ((1 << k) + d) for k in range(sc.bits) for d in (-1, 0, 1) for s in (1, -1) if sc.lo <= s * ((1 << k) + d) <= sc.hi})
        for v in vals:
            x.value(n, v)
            x.text(n, sc.out(v), "own-text")
