"""Floating point: printed text parses back to the same bits; any decimal text gives the correctly rounded value."""
from fractions import Fraction
import struct
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from .scal import Run


def dec_text(x, digits=None):
    """exact decimal text of a dyadic fraction"""
    n, d = x.numerator, x.denominator
    k = d.bit_length() - 1
    s = str(abs(n) * 5 ** k).rjust(k + 1, "0")
    return ("-" if n < 0 else "") + (s[:-k] + "." + s[-k:] if k else s)


def run():
    c = Check("C17", "a case is one float printed from its bits (all exponents x boundary and random mantissas, subnormals, integers, short and long decimals, NaN payloads) "
              "and parsed back, or one decimal text parsed (halfway points between neighbours and just beside them, written exactly); rounding judged with rational "
              "arithmetic; distinct by type and bits or text")
    p = Plan(c, build("vh"))
    x, r = Run(c, p), c.rng
    for n in ("float32", "float64"):
        sc = R.SCALARS[n]
        m, e = (23, 8) if n == "float32" else (52, 11)
        x.standard(n, c.n(4800, 60000))
        # every exponent with boundary mantissas, both signs
        exps = range(1 << e) if n == "float32" or c.thorough else sorted(r.sample(range(1 << e), 500))
        for k in exps:
            for f in (0, 1, (1 << m) - 1, r.getrandbits(m)):
                x.value(n, (r.getrandbits(1) << m + e) | k << m | f, native=r.random() < .5)
        # integers around the switch between plain and scientific notation
        for k in range(15, 27):
            for d in range(4):
                v = struct.unpack(sc.i, struct.pack(sc.f, float(r.randrange(10 ** k, 10 ** (k + 1)))))[0]
                x.value(n, v)
                x.value(n, v | 1 << m + e)
        for k in range(-12, 8):
            for d in range(4):
                v = struct.unpack(sc.i, struct.pack(sc.f, float("%.*ge%d" % (r.randrange(1, 18), r.random() + 1, k))))[0]
                x.value(n, v)
                x.value(n, v | 1 << m + e)
        # halfway points between neighbours, and a little to each side
        for _ in range(c.n(2000, 20000)):
            b = sc.gen(r) & ((1 << m + e) - 1)
            if (b >> m) >= (1 << e) - 1: continue
            lo, hi = Fraction(sc.num(b)), Fraction(sc.num(b + 1)) if (b + 1) >> m < (1 << e) - 1 else Fraction(2) ** (1 << e - 1)
            mid = (lo + hi) / 2
            t = dec_text(mid)
            if len(t) > 900: continue
            s = r.choice(["", "-"])
            for u in (t, t + "1" if "." in t else t + ".0000000001", t[:-1] + chr(ord(t[-1]) - 1) + "9" if t[-1] != "0" else t):
                x.text(n, R.T(s + u, r.random() < .5), "halfway")
        for t in ("0", "-0", "0.0", "-0.0", "0e5", "-0e-5", "1e-400", "-1e-400", "1e400", "-1e400", "1e99999", "1e-99999", "0e99999", "0.%s1" % ("0" * 400), "1" + "0" * 400,
                  "Infinity", "-Infinity", "NaN", "3.4028234663852886e38", "3.4028235677973366e38", "3.4028235677973365e38", "1.7976931348623157e308", "1.7976931348623159e308",
                  "1.797693134862315807e308", "1.797693134862315808e308", "5e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.4012984643248170e-45",
                  "7.0064923216240853e-46", "7.0064923216240854e-46", "2.2250738585072011e-308", "2.2250738585072012e-308", "1.1754943508222875e-38", "1.1754942807573643e-38",
                  "9007199254740993", "9007199254740992.5", "16777217", "33554433", "0.1", "0.3", "123456789012345678901234567890", "+1", "1.", ".5", "-.5", "1E5", "1e+5"):
            for q in (True, False):
                if q and t == "0e99999": continue   # refused by the JSON parser itself, as a number
                if q and not R.re.fullmatch(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?", t): continue
                x.text(n, R.T(t, q), "decimal")
        for s in ("1.5", "-2e-7", "Infinity", "NaN", "-Infinity"): x.string_edits(n, s, c.n(160, 400), "0123456789.eE+-INaftyx, ")
        if len(p.scripts) > 4000: p.run(); x.fresh()
    x.standard("float128", c.n(800, 4000))
    p.run()
    return c.finish(1000)
