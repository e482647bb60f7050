"""Memory observed while decoding, against the length of the input, whatever counts and lengths the input claims."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn

NATIVE = ("vec_u8 vec_char vec_u16 vec_u64 vec_double vec_string vec_vec vec_vec_string vec_name vec_asset vec_opt vec_variant vec_pair vec_varuint vec_bytes vec_checksum vec_key "
          "vec_sig list_u32 deque_string set_u16 set_string map_string_u32 map_u8_vec string string_view bytes stream vec_stream abi_def ship_request ship_result ship_block_traces "
          "ship_delta ship_block ship_tx ship_trx").split()
CLAIMS = [1000, 65536, 1 << 20, 1 << 24, (1 << 28) - 1, 1 << 28, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
CONST, PER = 400_000, 1000      # allocated in total by one decode: at most CONST + PER * input bytes (ABI-described JSON names are short here)


def leb64(v):
    o = bytearray()
    while True:
        o.append((v & 127) | (128 if v >> 7 else 0))
        v >>= 7
        if not v: return bytes(o)


def run():
    c = Check("C30", "a case is one decode under allocation accounting: small inputs claiming element counts and lengths from 10^3 to 2^64, at every position of random values, and long "
              "well-formed inputs; binary, hex and JSON, ABI-described and compiled types; distinct by type and input. Bound: total allocated <= %d + %d bytes per input byte (long inputs: 180 per byte for compiled types, 240 for ABI-described ones)" % (CONST, PER),
              assumptions=["allocation accounting by the ASan malloc hook"])
    r, p = c.rng, Plan(c, build("vh"))
    worst = {"small_input_bytes_allocated": 0, "long_input_bytes_per_byte": 0.0}

    def judge(key, n, k=1):
        def j(res):
            if n < 2000: worst["small_input_bytes_allocated"] = max(worst["small_input_bytes_allocated"], res.total)
            else: worst["long_input_bytes_per_byte"] = max(worst["long_input_bytes_per_byte"], round(res.total / n, 1))
            per = PER if "long" not in key else 180 if key.startswith("native") else 240      # observed on long inputs: at most 90 and 120
            if res.total > (CONST if not key.startswith("native") else CONST // 4) + per * n * k: return (key, "%d bytes of input made the decoder allocate %d bytes (peak %d)" % (n, res.total, res.peak))
        return j

    # compiled types
    s = p.script()
    k = 0
    for n in NATIVE:
        for m in CLAIMS + [1 << 32, 1 << 40, 1 << 48, (1 << 56) - 1, 1 << 60, (1 << 61) + 1, (1 << 63) + 1, (1 << 64) - 1]:
            for tail in (b"", b"\0", b"\1" * 7, r.randbytes(r.randrange(60)), b"\0" * 50, leb64(m) * 3, b"\1" + leb64(m) + b"\1\1\1"):
                for pre in (b"", b"\1", b"\1\1", b"\2", b"\0", r.randbytes(r.randrange(30)), b"\1\0\0"):
                    if r.random() < .35: continue
                    b = pre + leb64(m) + tail
                    c.count((n, b), "native_claims")
                    s.add(judge("native:" + n, len(b)), "ndec", n, b)
                    k += 1
                    if k % 400 == 0: s = p.script()
    for n in c.n((3000, 100000), (3000, 100000, 3000000)):
        for t, b in (("vec_u8", R.leb(n) + b"\1" * n), ("vec_u64", R.leb(n // 8) + b"\1" * (n // 8 * 8)), ("vec_string", R.leb(n) + b"\0" * n), ("vec_string", R.leb(n // 30) + (b"\x1d" + b"x" * 29) * (n // 30)),
                     ("vec_string", R.leb(n // 17) + (b"\x10" + b"x" * 16) * (n // 17)), ("vec_vec_string", R.leb(n // 18) + (b"\1\x10" + b"x" * 16) * (n // 18)),
                     ("deque_string", R.leb(n // 17) + (b"\x10" + b"x" * 16) * (n // 17)), ("vec_bytes", R.leb(n // 2) + b"\1x" * (n // 2)), ("vec_vec", R.leb(n // 2) + b"\1\1" * (n // 2)),
                     ("vec_vec", R.leb(n) + b"\0" * n), ("vec_vec_string", R.leb(n) + b"\0" * n), ("vec_opt", R.leb(n) + b"\0" * n), ("vec_varuint", R.leb(n) + b"\1" * n), ("list_u32", R.leb(n // 4) + b"\1" * (n // 4 * 4)),
                     ("deque_string", R.leb(n) + b"\0" * n), ("vec_bytes", R.leb(n) + b"\0" * n), ("string", R.leb(n) + b"x" * n), ("vec_variant", R.leb(n // 2) + b"\0\1" * (n // 2)),
                     ("set_u16", R.leb(n // 2) + b"".join(i.to_bytes(2, "little") for i in range(n // 2 if n < 131072 else 65536)) + b"\0" * (0 if n < 131072 else n // 2 * 2 - 131072)),
                     ("vec_stream", R.leb(n) + b"\0" * n)):
            s = p.script()
            c.count((t, n), "native_long")
            j = judge("native-long:" + t, len(b))
            s.add(lambda res, j=j: j(res) or (None if res.ok else ("native-long-rejected", repr(res))), "ndec", t, b)

    # ABI-described types
    class big:
        """encodes with the k-th count or length replaced"""
        def __init__(self, k, m): self.k, self.m, self.n, self.hit = k, m, 0, False
        def __call__(self, x):
            self.n += 1
            if self.n - 1 == self.k:
                self.hit = True
                return leb64(self.m)
            return orig(x)
    orig = R.leb
    kinds = [b for b in R.BUILTINS]

    def claims(s, a, n, t, v, times):
        for _ in range(times):
            R.leb = f = big(r.choice([0, 0, 1, 2, 3, r.randrange(12)]), r.choice(CLAIMS + [1 << 40, (1 << 63) + 5]))
            try: b = a.enc(t, v)
            finally: R.leb = orig
            if not f.hit: continue
            if r.random() < .4: b = b[:r.randrange(len(b) + 1)]
            c.count((n, b), "abi_claims")
            if r.random() < .2: s.add(judge("abi:" + dyn.tname(t), 2 * len(b)), "h2j", 1, 1, n, b.hex())
            else: s.add(judge("abi:" + dyn.tname(t), len(b)), "b2j", 1, 1, n, b)
            if r.random() < .3: s.add(judge("abi-definition", len(b)), r.choice(["adefb"]), b)

    for n in R.BUILTINS:
        s = p.script()
        dyn.setup(s, dyn.BUILTIN_ABI)
        t = dyn.builtin_t(n)
        for i in range(c.n(25, 400)):
            claims(s, dyn.BUILTIN_ABI, n, t, dyn.BUILTIN_ABI.gen(t, r), 2)
            claims(s, dyn.BUILTIN_ABI, n + "[]", ("[]", t), dyn.BUILTIN_ABI.gen(("[]", t), r), 3)
            claims(s, dyn.BUILTIN_ABI, n + "?", ("?", t), dyn.BUILTIN_ABI.gen(("?", t), r), 1)

    for i in range(c.n(200, 4000)):
        a = R.gen_abi(r)
        s = p.script()
        dyn.setup(s, a)
        for n, t in R.usable_types(a):
            if not dyn.dense(a, t): continue
            claims(s, a, n, t, a.gen(t, r), 4)
        # damaged definitions
        b = a.bin()
        for _ in range(10):
            f = big(r.randrange(40), r.choice(CLAIMS))
            R.leb = f
            try: d = a.bin()
            finally: R.leb = orig
            if f.hit:
                if r.random() < .5: d = d[:r.randrange(len(d))]
                c.count(("def", d), "definition_claims")
                s.add(judge("abi-definition", len(d), 3), "adefb", d)
                s.add(judge("abi-load", len(d), 3), "abib", 1, 7, d)
        if len(p.scripts) > 1500: p.run(stats=True)
    # long well-formed inputs through ABI types: allocation stays linear
    ab = R.Abi({"version": "eosio::abi/1.1", "types": [], "structs": [{"name": "s", "base": "", "fields": [{"name": "a", "type": "uint8"}, {"name": "b", "type": "string"}]}],
                "variants": [{"name": "v", "types": ["uint8", "s"]}], "actions": [], "tables": []})
    for n in c.n((3000, 60000), (3000, 60000, 600000)):
        s = p.script()
        dyn.setup(s, ab)
        for ty, el, js in (("uint8[]", b"\1", "1"), ("bool[]", b"\1", "true"), ("string[]", b"\0", '""'), ("string[]", b"\1x", '"x"'), ("string[]", b"\x10" + b"x" * 16, '"xxxxxxxxxxxxxxxx"'), ("uint8?[]", None, None), ("s[]", b"\1\0", '{"a":1,"b":""}'),
                           ("v[]", b"\0\1", '["uint8",1]'), ("name[]", b"\1" * 8, '"............1"'), ("float64[]", b"\0\0\0\0\0\0\xf8\x3f", "1.5"), ("bytes[]", b"\0", '""'), ("asset[]", b"\1" + b"\0" * 8 + b"A" + b"\0" * 6, '"1 A"'),
                           ("varuint32[]", b"\0", "0"), ("uint128[]", b"\1" + b"\0" * 15, '"1"')):
            if el is None: continue
            m = n // len(el)
            b, j = R.leb(m) + el * m, "[" + ",".join([js] * m) + "]"
            c.count((ty, n), "abi_long", 3)
            s.add(judge("long:" + ty, len(b)), "b2j", 1, 1, ty, b)
            for o in ("j2b", "j2r"): s.add(judge("long-json:" + ty, len(j)), o, 1, 1, ty, j)
        b = R.leb(n) + b"x" * n
        for ty in ("string", "bytes"):
            s.add(judge("long:" + ty, len(b)), "b2j", 1, 1, ty, b)
            j = '"%s"' % ("00" * n)
            for o in ("j2b", "j2r"): s.add(judge("long-json:" + ty, len(j)), o, 1, 1, ty, j)
            s.add(judge("long:" + ty, 2 * len(b)), "h2j", 1, 1, ty, b.hex())
        for j in ('"' + "9" * n + '"', "9" * n, "-" * n, '"' + "\\u0041" * n + '"', "[" * n, '{"a":' * n, "0." + "0" * n):
            for ty in ("uint8", "uint128", "float64", "string", "s", "v", "uint8[]", "asset", "name", "public_key" if n < 5000 else "bytes"):
                c.count((ty, j[:4], n), "long_json")
                s.add(judge("long-json:" + ty, len(j)), r.choice(["j2b", "j2r"]), 1, 1, ty, j)
    p.run(stats=True)
    c.extra.update(worst)
    return c.finish(1000)
