"""The binary decoder accepts exactly what the reference decoder accepts: prefixes, extensions and corruptions of encodings."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn


def faulty(a, t, v, k, how, r):
    """encoding of v whose k-th count, length or tag is damaged; None if there is no k-th"""
    real, n, hit = R.leb, [0], [False]
    def leb(x):
        n[0] += 1
        if n[0] - 1 != k: return real(x)
        hit[0] = True
        if how == "overlong": return bytes([x & 127 | 128, x >> 7 & 127 | 128, x >> 14 & 127 | 128, x >> 21 & 127 | 128, x >> 28 | 128, 0])
        if how == "overlong64":
            m = r.choice([6, 9, 10, 11, 11, 12, 13, 15])
            return bytes([x >> 7 * i & 127 | 128 for i in range(m - 1)] + [x >> 7 * (m - 1) & 127])
        if how == "unterminated": return b"\xff" * 10
        if how == "plus": return real(x + r.choice([1, 1, 2, 3, 127, 128, 255, 256]))
        if how == "huge": return real(r.choice([0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 1 << 24]))
        if how == "minus": return real(max(0, x - 1))
        return real(x) if x > 127 else bytes([x | 128, 0])   # padded
    R.leb = leb
    try: b = a.enc(t, v)
    finally: R.leb = real
    return b if hit[0] else None


def run():
    c = Check("C05", "a case is one byte string decoded through a type: every prefix of an encoding (up to 80 bytes, then a sample), the encoding with bytes appended, "
              "with a damaged count/length/tag, or mutated at random; judged accept/reject and value against the reference decoder; distinct by type shape and bytes")
    r, p = c.rng, Plan(c, build("vh"))

    def probe(s, a, name, t, b, key, how):
        try:
            want = a.out(t, a.decode(t, b))
        except R.Reject: want = None
        except R.Huge: return
        except R.Unspec:
            c.note("unspecified_not_judged")
            s.add(None, "b2j", 1, 1, name, b)
            return
        c.count((key, b), how + ("_refused" if want is None else "_accepted"))
        o = "h2j" if r.random() < .1 else "b2j"
        s.add(dyn.judge_json(key + ":" + how, want), o, 1, 1, name, b.hex() if o == "h2j" else b)

    def probes(s, a, n, t, v, key, mut):
        b = a.enc(t, v)
        cuts = range(len(b)) if len(b) <= 80 else sorted(r.sample(range(len(b)), 40))
        for i in cuts: probe(s, a, n, t, b[:i], key, "prefix")
        for x in (b"\0", r.randbytes(1), b"\xff" * r.randrange(1, 5)): probe(s, a, n, t, b + x, key, "extended")
        for how in ("overlong", "overlong64", "unterminated", "plus", "huge", "minus", "padded"):
            for k in range(3):
                f = faulty(a, t, v, k if k < 2 else r.randrange(2, 9), how, r)
                if f is not None: probe(s, a, n, t, f, key, how)
        for _ in range(mut): probe(s, a, n, t, dyn.mutate_bin(b, r), key, "mutated")

    for n in R.BUILTINS:
        t, a = dyn.builtin_t(n), dyn.BUILTIN_ABI
        for part in range(2):
            s = p.script()
            dyn.setup(s, a)
            for i in range(c.n(12, 300)):
                probes(s, a, n, t, a.gen(t, r, raw=True), n, 6)
                if i % 3 == 0:
                    probes(s, a, n + "[]", ("[]", t), a.gen(("[]", t), r), n + "[]", 3)
                    probes(s, a, n + "?", ("?", t), a.gen(("?", t), r), n + "?", 3)
    # variants of no and of one alternative: no tag, or only tag 0, means anything
    a = R.Abi({"version": "eosio::abi/1.1", "structs": [{"name": "n", "base": "", "fields": []}, {"name": "s", "base": "", "fields": [{"name": "a", "type": "uint8"}, {"name": "b", "type": "e"}]},
                                                       {"name": "x", "base": "", "fields": [{"name": "a", "type": "uint8"}, {"name": "b", "type": "e$"}]}],
               "variants": [{"name": "e", "types": []}, {"name": "o", "types": ["uint8"]}, {"name": "on", "types": ["n"]}, {"name": "oe", "types": ["e"]}]})
    s = p.script()
    dyn.setup(s, a)
    for n in ("e", "e[]", "e?", "s", "x", "x[]", "o", "o[]", "on", "on?", "on[]", "oe", "oe[]", "n", "n[]", "n?"):
        for b in {bytes(r.choice([0, 0, 0, 1, 1, 2, 127, 128, 255]) for _ in range(r.randrange(7))) for _ in range(c.n(60, 600))}:
            probe(s, a, n, a.canon(n), b, n, "few alternatives")
    for i in range(c.n(350, 8000)):
        a = R.gen_abi(r)
        s = p.script()
        dyn.setup(s, a)
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 5)):
            v = a.gen(t, r)
            probes(s, a, n, t, v, dyn.tname(t), 8)
        if i < 3: c.sample({"abi": a.d, "type": n, "bin": a.enc(t, v).hex()})
        if len(p.scripts) >= 1500: p.run()
    p.run()
    return c.finish(1000)
