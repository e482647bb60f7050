"""Binary -> JSON is the reference model's JSON form of the value, and converting it back gives the original bytes."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn


def run():
    c = Check("C03", "a case is the wire encoding (by the reference model) of one random value of a type of a random ABI or a built-in type; the JSON observed is "
              "parsed by an independent parser and compared with the model's document, then converted back; distinct by type shape and bytes")
    r, p = c.rng, Plan(c, build("vh"))
    back = []

    def value(s, si, a, name, t, v, key):
        b = a.enc(t, v)
        try: want, exact = a.out(t, v), True
        except R.Unspec: want, exact = None, False
        lossy = a.lossy(t, v)
        c.count((key, b), "lossy" if lossy else "unspecified_text" if not exact else "exact")

        def judge(res):
            if exact:
                e = dyn.judge_json(key, want)(res)
                if e: return e
            else:
                if not res.ok: return (key + ":format-failed", "formatting a value must not fail: %r" % res)
                try: R.jparse(res.f[0])
                except (ValueError, UnicodeDecodeError) as e: return (key + ":invalid-json", repr(res.f[0]))
            if exact and not lossy: back.append((si, name, res.f[0], b, key))
        if r.random() < .15: s.add(judge, "h2j", 1, 1, name, r.choice([b.hex(), b.hex().upper()]))
        else: s.add(judge, "b2j", 1, 1, name, b)

    def rounds(abis):
        nonlocal back
        p.run()
        q = {}
        for si, name, js, b, key in back: q.setdefault(si, []).append((name, js, b, key))
        back = []
        for si, l in q.items():
            s = p.script()
            dyn.setup(s, abis[si])
            for name, js, b, key in l:
                c.note("converted_back")
                s.add(dyn.judge_bin(key + ":back", b), "j2b" if r.random() < .6 else "j2r", 1, 1, name, js)
        p.run()

    abis = []
    for n in R.BUILTINS:
        t, a = dyn.builtin_t(n), dyn.BUILTIN_ABI
        abis.append(a)
        s = p.script()
        dyn.setup(s, a)
        for i in range(c.n(150, 6000)):
            value(s, len(abis) - 1, a, n, t, a.gen(t, r, raw=True), n)
            if i % 6 == 0:
                value(s, len(abis) - 1, a, n + "[]", ("[]", t), a.gen(("[]", t), r, raw=True), n + "[]")
                value(s, len(abis) - 1, a, n + "?", ("?", t), a.gen(("?", t), r, raw=True), n + "?")
        # values whose text the properties leave open: they must still format
        if n == "time_point":
            for v in [R.US_MIN - 1, R.US_MAX + 1, -(1 << 63), (1 << 63) - 1, r.getrandbits(62), -r.getrandbits(62), 1, 999, -1, 123456789]:
                value(s, len(abis) - 1, a, n, t, v, n)
        if n in ("symbol", "symbol_code"):
            for v in [0, 255, 1 << 63, (1 << 64) - 1, r.getrandbits(64), 0x4100004100, 0x2200, 0x0a00, 0x5c00]:
                value(s, len(abis) - 1, a, n, t, v, n)
        if n == "asset":
            for v in [0, 255, 1 << 63, (1 << 64) - 1, r.getrandbits(64), 0x2200]:
                value(s, len(abis) - 1, a, n, t, (r.getrandbits(63), v), n)
    rounds(abis)
    big = dyn.big_abi()     # many elements, members and alternatives, long text
    abis = []
    for j, (n, v) in enumerate(dyn.big_values(big, r, c.n(30, 600))):
        if j % 8 == 0:
            abis.append(big)
            s = p.script()
            dyn.setup(s, big)
        value(s, len(abis) - 1, big, n, big.canon(n), v, "large " + n)
    rounds(abis)
    total = c.n(600, 14000)
    abis = []
    for i in range(total):
        a = R.gen_abi(r)
        abis.append(a)
        s = p.script()
        dyn.setup(s, a)
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 8)):
            for _ in range(3):
                v = a.gen(t, r, raw=True)
                v = a.decode(t, a.enc(t, v)) if True else v  # omitted and empty extensions coincide
                value(s, len(abis) - 1, a, n, t, v, dyn.tname(t))
        if i < 4: c.sample({"abi": a.d, "type": n, "bin": a.enc(t, v).hex()})
        if len(abis) >= 2000:
            rounds(abis)
            abis = []
    rounds(abis)
    return c.finish(1000)
