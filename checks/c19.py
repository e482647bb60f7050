"""Keys and signatures: standard text with checksum both ways; no changed text is accepted."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from .scal import Run


def run():
    c = Check("C19", "a case is one key or signature printed, or one text parsed: own text, legacy and WIF forms, every single-character change/deletion/insertion/swap of sampled texts, "
              "other prefixes and curves, valid checksums over wrong lengths; through the compiled type, the ABI type and the string functions; distinct by kind and text")
    p = Plan(c, build("vh"))
    x, r = Run(c, p), c.rng
    for n in A.KINDS:
        sc = R.SCALARS[n]
        x.standard(n, c.n(250, 8000))
        for i in range(c.n(16, 250)):   # every position of the text, edited in each way
            v = sc.gen(r)
            t = A.key_text(n, *v)
            if i % 4 == 3 and n == "public_key": v = (0, v[1] if v[0] == 0 else r.randbytes(33)); t = A.key_legacy_text(v[1])
            if len(t) > 200: continue
            for j in range(len(t) + 1):
                al = [ch for ch in A.B58 if j >= len(t) or ch != t[j]]
                if j < len(t):
                    x.text(n, R.T(t[:j] + r.choice(al) + t[j + 1:]), "changed", dynamic=j % 4 == 0)
                    x.text(n, R.T(t[:j] + t[j + 1:]), "dropped", dynamic=j % 4 == 1)
                    x.text(n, R.T(t[:j] + r.choice("0OIl+/_ -.é\0") + t[j + 1:]), "foreign-character", dynamic=False)
                x.text(n, R.T(t[:j] + r.choice(A.B58) + t[j:]), "added", dynamic=j % 4 == 2)
                if j + 1 < len(t) and t[j] != t[j + 1]: x.text(n, R.T(t[:j] + t[j + 1] + t[j] + t[j + 2:]), "swapped", dynamic=False)
            for l in range(0, len(t), 3): x.text(n, R.T(t[:l]), "truncated", dynamic=False)
        # texts whose checksum is right for a payload of the wrong length or for another curve or kind
        for i in range(c.n(60, 1500)):
            k = r.choice(list(A.KINDS))
            tag = r.randrange(A.KINDS[k][1])
            for size in (0, 1, 3, 4, 31, 32, 33, 34, 64, 65, 66, r.randrange(80)):
                pl = r.randbytes(size)
                curve = A.CURVES[r.randrange(3)]
                x.text(n, R.T("%s_%s_%s" % (A.KINDS[k][0], A.CURVES[tag], A.b58e(pl + A.ripemd160(pl + curve.encode())[:4]))), "other-length-or-kind", dynamic=False)
                if n == "public_key": x.text(n, R.T("EOS" + A.b58e(pl + A.ripemd160(pl)[:4])), "other-length-or-kind", dynamic=False)
        # the string functions themselves
        s = p.script()
        for i in range(c.n(150, 4000)):
            v = sc.gen(r)
            t, b = A.key_text(n, *v), sc.enc(v)
            c.count((n, "fn", t), "string_functions", 2)
            s.add(lambda res, t=t: None if res.ok and res.f[0] == t.encode() else "should give %s, got %r" % (t, res), "keystr", n, b)
            s.add(lambda res, b=b: None if res.ok and res.f[0] == b else "should give %s, got %r" % (b.hex(), res), "keyparse", n, t)
            j = r.randrange(len(t))
            u = t[:j] + r.choice([ch for ch in A.B58 if ch != t[j]]) + t[j + 1:]
            if j >= 7: s.add(lambda res: None if res.err else "should be rejected, got %r" % res, "keyparse", n, u)
            if i % 200 == 199: s = p.script()
    # leading zero bytes in payloads (base-58 ones)
    for n, tag, size in (("public_key", 0, 33), ("private_key", 1, 32), ("signature", 0, 65)):
        for z in range(0, size + 1, 4):
            v = (tag, b"\0" * z + r.randbytes(size - z))
            x.value(n, v)
            x.text(n, R.T(A.key_text(n, *v)), "leading-zeros")
    # WIF private keys: same key material as the PVT_K1_ form
    s = p.script()
    for i in range(c.n(60, 1000)):
        pl = r.randbytes(32)
        t = A.key_wif(pl)
        c.count(("wif", t), "wif")
        s.add(lambda res, pl=pl: None if res.ok and res.f[0] == b"\0" + pl else ("private_key:wif", "should give %s, got %r" % (pl.hex(), res)), "keyparse", "private_key", t)
        # a changed checksum character must not be accepted
        j = r.randrange(len(t) - 3, len(t))
        u = t[:j] + r.choice([ch for ch in A.B58 if ch != t[j]]) + t[j + 1:]
        d = A.b58d(u)
        if d[:33] == b"\x80" + pl and len(d) == 37:
            c.count(("wifbad", u), "wif_wrong_checksum")
            s.add(lambda res: None if res.err else ("wif-checksum", "a WIF private key whose checksum is wrong was accepted"), "keyparse", "private_key", u)
        for u in (t[:-1], t[1:], t + "1", t + "A", A.b58e(b"\x81" + pl + A.sha256d(b"\x81" + pl)[:4]), A.b58e(b"\x80" + pl[1:] + A.sha256d(b"\x80" + pl[1:])[:4]), t[:20], ""):
            c.count(("wifshape", u), "wif_malformed")
            s.add(lambda res: None if res.err else ("private_key:wif-malformed", "should be rejected, got %r" % res), "keyparse", "private_key", u)
    p.run()
    return c.finish(1000)
