"""Times: ISO-8601 text of the exact UTC instant, both ways, over the whole representable range."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from .scal import Run

DAY = 86400 * 10**6


def run():
    c = Check("C18", "a case is one instant printed from its count, or one text parsed, through the compiled and the ABI types and the conversion helpers: every month boundary "
              "of sampled years, leap rules, ends of each type's range, random instants, malformed and out-of-range texts; judged with an independent calendar; distinct by type and text")
    p = Plan(c, build("vh"))
    x, r = Run(c, p), c.rng
    rng = {"time_point": (R.US_MIN, R.US_MAX), "time_point_sec": (0, 0xffffffff * 10**6), "block_timestamp_type": (A.EPOCH_2000_MS * 1000, (A.EPOCH_2000_MS + 500 * 0xffffffff) * 1000)}

    def at(us):
        for n, (lo, hi) in rng.items():
            t = A.time_text(us)
            if R.US_MIN <= us <= R.US_MAX:
                x.text(n, R.T(t), "instant")
                if r.random() < .3: x.text(n, R.T(t[:19]), "no-fraction")
                if r.random() < .3: x.text(n, R.T(t[:19] + "." + "%d" % r.randrange(10 ** r.randrange(1, 7))), "fraction")
            if lo <= us <= hi:
                v = us // 1000 * 1000 if n == "time_point" else us // 10**6 if n == "time_point_sec" else (us // 1000 - A.EPOCH_2000_MS) // 500
                x.value(n, v)

    for n in rng: x.standard(n, c.n(1200, 12000))
    years = sorted({0, 1, 4, 100, 400, 1599, 1600, 1601, 1700, 1899, 1900, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2038, 2068, 2069, 2100, 2104, 2105, 2106, 2107, 2200, 2242, 2400,
                    4000, 9996, 9999} | {r.randrange(0, 10000) for _ in range(c.n(20, 400))} | {r.randrange(1970, 2107) for _ in range(c.n(30, 137))})
    for y in years:
        for m in range(1, 13):
            for d in (1, A.days_in_month(y, m)):
                us = A.days_of(y, m, d) * DAY
                at(us + r.choice([0, DAY - 1000, r.randrange(DAY)]))
            t = "%04d-%02d-%02dT00:00:00" % (y, m, A.days_in_month(y, m) + 1)
            for n in rng: x.text(n, R.T(t), "no-such-day")
    for lo, hi in rng.values():
        for e in (lo, hi):
            for d in (-10**6, -500000, -499000, -1000, 0, 1000, 499000, 500000, 999000, 10**6, -DAY, DAY, 366 * DAY, -366 * DAY): at(e + d)
    for k in range(-63, 63):   # around each power of two of microseconds, seconds and slots
        for u in (1, 10**6, 500000):
            us = (1 << k if k >= 0 else -(1 << -k)) * u
            for d in (-1000, 0, 1000):
                if R.US_MIN <= us + d <= R.US_MAX: at(us + d)
    for _ in range(c.n(2400, 30000)):
        at(r.randint(R.US_MIN, R.US_MAX))
        at(r.randint(0, 0xffffffff * 10**6))
    for n in rng:
        for s in ("2020-02-29T12:34:56.789", "1970-01-01T00:00:00.000", "2106-02-07T06:28:15", "2018-06-15T19:17:47.500"):
            x.string_edits(n, s, c.n(480, 2500), "0123456789.-:TtZz +/,\0")
        for fld, lim in ((5, 13), (8, 32), (11, 24), (14, 60), (17, 60)):
            for v in range(100):
                s = "2020-01-01T00:00:00.000"
                x.text(n, R.T(s[:fld] + "%02d" % v + s[fld + 2:]), "field")
    # the helpers and the conversions between the three representations
    s = p.script()

    def eq(*want):
        want = [str(w).encode() for w in want]
        return lambda res: None if res.ok and res.f == want else "should give %r, got %r" % (want, res)
    for i in range(c.n(6000, 40000)):
        slot = R.edge_int(r, 0, 0xffffffff)
        us = (slot * 500 + A.EPOCH_2000_MS) * 1000
        c.count(("slot", slot), "conversions")
        s.add(eq(us, slot, us // 10**6 & 0xffffffff), "timeconv", "slot", slot)
        sec = R.edge_int(r, 0, 0xffffffff)
        c.count(("sec", sec), "conversions")
        s.add(eq(sec * 10**6, sec, sec), "timeconv", "sec", sec)
        us = r.randint(A.EPOCH_2000_MS * 1000, rng["block_timestamp_type"][1])
        c.count(("us", us), "conversions")
        s.add(eq((us // 1000 - A.EPOCH_2000_MS) // 500, us // 10**6, us // 10**6), "timeconv", "us", us)
        us = r.randint(R.US_MIN, R.US_MAX)
        c.count(("text", us), "conversions")
        s.add(eq(A.time_text(us)), "timetext", str(us & A.M64))
        if 0 <= us <= 0xffffffff * 10**6:
            c.count(("parse", us), "conversions")
            s.add(lambda res, us=us: None if res.ok and res.f[1] == str(us // 1000 * 1000).encode() else "parsed to %r" % res, "timeparse", A.time_text(us))
        if i % 400 == 399: s = p.script()
    p.run()
    return c.finish(1000)
