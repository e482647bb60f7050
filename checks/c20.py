"""RIPEMD-160, the 64-bit name hash, base-58 and hex against independent definitions."""
import hashlib
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A


def run():
    c = Check("C20", "a case is one byte string hashed (RIPEMD-160 in random chunkings, every length to 300 and each padding boundary; the name hash with and without seed), or encoded "
              "and decoded in base-58 or hex, or one malformed text; judged against the published algorithms reimplemented in the monitor; distinct by function and bytes")
    r, p = c.rng, Plan(c, build("vh"))
    st = {"s": p.script(), "k": 0}

    def add(judge, *a):
        st["k"] += 1
        if st["k"] % 300 == 0: st["s"] = p.script()
        st["s"].add(judge, *a)

    def eq(want, what):
        return lambda res: None if res.ok and res.f[0] == want else (what, "should give %r, got %r" % (want, res))

    def refuse(what): return lambda res: None if res.err else (what + ":accepted", "should be rejected, got %r" % res)

    def ripe(b):
        d = A.ripemd160(b)
        for how in range(2):
            if how == 0: ch = [b]
            else:
                cuts = sorted({r.randrange(len(b) + 1) for _ in range(r.choice([1, 2, 3, 8]))} | {x for x in (55, 56, 63, 64, 65, 119, 120, 128) if x < len(b) and r.random() < .3})
                ch = [b[i:j] for i, j in zip([0] + cuts, cuts + [len(b)])]
            c.count(("ripe", b, tuple(map(len, ch))), "ripemd160")
            add(eq(d, "ripemd160"), "ripe", *ch)

    def data(n):
        k = r.random()
        if k < .5: return r.randbytes(n)
        if k < .7: return bytes([r.choice([0, 255, 128, 127])]) * n
        return b"\0" * r.randrange(n + 1) + r.randbytes(n)

    for n in list(range(0, 301)) + [r.randrange(300, 5000) for _ in range(c.n(40, 200))] + [511, 512, 513, 1023, 1024, 4096]:
        for _ in range(c.n(1, 8)): ripe(data(n)[:n])
    st["s"] = p.script()
    add(eq(A.ripemd160(b"abc" * 70000), "ripemd160"), "ripe", b"abc" * 70000)
    # a message whose length in bits does not fit 32 bits (the digests are those of openssl)
    for n, d in ((2 ** 29 + 1, "baa3d7a89f90a96f02a82d48edd580e5a0a9eced"), (2 ** 29, "2d253ceb06fb13e1fa3c7756e37bb5562b1bf3ba")):
        if n % 2 or c.n(0, 1):
            s = p.script()
            c.count(("ripelong", n), "ripemd160_long")
            s.add(eq(bytes.fromhex(d), "ripemd160-long"), "ripelong", "a", n, 1 << 20)
    # the name hash: what the deployed library computes, with the default and other seeds
    for _ in range(c.n(12000, 60000)):
        b = data(r.choice([r.randrange(0, 40), r.randrange(0, 40), r.randrange(300)]))
        if r.random() < .4: b = bytes(r.choice(b"abcxyz_ABC019. ") for _ in range(r.randrange(30)))
        c.count(("murmur", b), "murmur")
        add(eq(str(A.murmur(b)).encode(), "name-hash"), "murmur", b)
        if r.random() < .2:
            seed = r.getrandbits(64)
            add(eq(str(A.murmur(b, seed)).encode(), "name-hash"), "murmur", b, str(seed))
    # base-58
    for _ in range(c.n(10000, 50000)):
        b = data(r.choice([0, 1, 2, 3, 4, 20, 33, 37, 64, 69, r.randrange(100)]))
        t = A.b58e(b)
        c.count(("b58", b), "base58", 2)
        add(eq(t.encode(), "base58-encode"), "b58e", b)
        add(eq(b, "base58-decode"), "b58d", t)
        u = bytearray((t + "z").encode())
        u[r.randrange(len(u))] = r.choice([x for x in range(256) if x not in A.B58.encode()])
        c.count(("b58bad", bytes(u)), "base58_foreign")
        add(refuse("base58-decode"), "b58d", bytes(u))
        v = "".join(r.choice(A.B58[:r.choice([2, 58])]) for _ in range(r.randrange(60)))
        c.count(("b58d", v), "base58")
        add(eq(A.b58d(v), "base58-decode"), "b58d", v)
    for ch in range(256):   # every character
        k = A.B58.encode().find(bytes([ch]))
        for t in (bytes([ch]), b"2" + bytes([ch]), bytes([ch]) + b"z"):
            c.count(("b58ch", t), "base58_characters")
            add(eq(A.b58d(t), "base58-decode") if k >= 0 else refuse("base58-decode"), "b58d", t)
    # hex: encoder, and both decoders (JSON bytes; binary given as hex to the C interface)
    s = None
    for i in range(c.n(6000, 30000)):
        if i % 200 == 0:
            s = p.script()
            s.add(None, "ctx", 1)
            s.add(None, "abi", 1, 1, '{"version":"eosio::abi/1.0"}')
        b = data(r.choice([0, 1, 2, 3, 16, 127, 128, r.randrange(60)]))
        h = "".join(r.choice([x, x.upper()]) for x in b.hex())
        c.count(("hex", h), "hex", 4)
        want = R.leb(len(b)) + b
        s.add(eq(b.hex().upper().encode(), "hex-encode"), "hexe", b)
        s.add(eq(want, "hex-json"), "nj", "bytes", '"%s"' % h)
        s.add(eq(want, "hex-json"), "j2b", 1, 1, "bytes", '"%s"' % h)
        s.add(eq(b'"%s"' % b.hex().upper().encode(), "hex-binary"), "h2j", 1, 1, "bytes", "".join(r.choice([x, x.upper()]) for x in want.hex()))
        j = r.randrange(len(h) + 1)
        ch = chr(r.choice([x for x in range(1, 128) if chr(x) not in "0123456789abcdefABCDEF\"\\" and x >= 32]))
        for u in (h[:j] + r.choice("0aF") + h[j:], h[:j] + ch + h[j + 1:] if h else ch + ch, h[:-1] if h else "5"):
            c.count(("hexbad", u), "hex_refused")
            s.add(refuse("hex-json"), "nj", "bytes", '"%s"' % u)
            s.add(refuse("hex-json"), "j2b", 1, 1, "bytes", '"%s"' % u)
            w = want.hex()
            k = r.randrange(len(w))
            s.add(refuse("hex-binary"), "h2j", 1, 1, "bytes", w[:k] + ch + w[k + 1:])
            s.add(refuse("hex-binary"), "h2j", 1, 1, "bytes", w + "0")
    s = p.script()
    s.add(None, "ctx", 1)
    s.add(None, "abi", 1, 1, '{"version":"eosio::abi/1.0"}')
    for ch in range(1, 128):
        x = chr(ch)
        good = x in "0123456789abcdefABCDEF"
        for u in (x + "0", "0" + x):
            c.count(("hexch", u), "hex_characters")
            w = eq(b'%d' % int(u, 16), "hex-binary") if good else refuse("hex-binary")
            s.add(w, "h2j", 1, 1, "uint8", u)
            if ch >= 32 and x not in '"\\':
                s.add(eq(b"\1" + bytes([int(u, 16)]), "hex-json") if good else refuse("hex-json"), "nj", "bytes", '"%s"' % u)
    c.sample({"ripemd160": "abc", "digest": A.ripemd160(b"abc").hex(), "name_hash_of": "not a name", "hash": A.murmur(b"not a name")})
    p.run()
    return c.finish(1000)
