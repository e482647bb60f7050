"""Hostile input through the C interface under address, undefined-behaviour and leak sanitizers."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from . import dyn, fuzz

NASTY = [b"", b"\0", b"\xff", b"{", b"[", b'"', b"\\", b'"\\', b'"\\u', b'"\\u12', b'"\\ud800"', b'"\\ud800\\u0041"', b"-", b"1e", b"1e999", b"-1e-999", b"0x10", b"nan", b"tru", b"null", b"true",
         b"//", b"/*", b"\xef\xbb\xbf1", b"\xc3\x28", b'"\xc3\x28"', b'"\xf5\x80\x80\x80"', b"[[[[", b"{\"a\":", b"{\"a\"", b"{,", b"[,]", b"[1,]", b"{}", b"[]", b'""', b"1 2", b"[] []", b"9" * 400,
         b"[" * 5000, b'{"a":' * 5000, b'{"":' * 40000, b"[" * 200000, b'"' + b"a" * 70000 + b'"', b'"' + b"\\u0000" * 3000 + b'"', b" " * 3000 + b"1", b"1" + b"0" * 20000, b"0." + b"0" * 20000 + b"1", b"-" * 999,
         b'["int8",', b'["int8"]', b'["int8",1,2]', b'[1,2]', b'{"int8":1}', b'"' + b"0" * 99999 + b'"', b'"' + b"0" * 99998 + b'"', b'"PUB_K1_' + b"1" * 3000 + b'"', b'"EOS"', b'"EOS1"', b'"PUB_K1_"', b'"SIG_WA_' + b"z" * 90 + b'"',
         b'"PVT_R1_' + b"1" * 60 + b'"', b'"' + b"z" * 3000 + b'"', b'"9999-99-99T99:99:99.999999999"', b'"-2000-01-01T00:00:00"', b'"2000-01-01T00:00:"', b'"."', b'"."', b'"........................"', b'"99999999999999999999 A"', b'"1."',
         b'"1. A"', b'".1 A"', b'"-.1 A"', b'"-9223372036854775808 A"', b'"1 "', b'" A"', b'"300,A"', b'","', b'"1,"', b'"A,1"', b'"1,AAAAAAAAAAAAAAAAAAAA"', b'"' + b"A" * 100 + b'"', b"-170141183460469231731687303715884105728",
         b'"340282366920938463463374607431768211455"', b'"340282366920938463463374607431768211456"', b"-9223372036854775808", b"1e308", b"1.7976931348623159e308", b"4.9e-324", b"1e-400", b'"inf"', b'"-nan"', b'"0x1p-2000"']
# text that ends inside a multi-byte character, in lengths around the usual string capacities
NASTY += [b'"' + b"a" * n + e for n in (0, 5, 12, 13, 14, 15, 16, 20, 27, 28, 29, 30, 31, 44, 45, 46, 59, 60, 61) for e in (b"\xc3", b"\xe2", b"\xe2\x82", b"\xf0", b"\xf0\x9f", b"\xf0\x9f\x98", b"\xf1")]
TYPES = ["", "?", "[]", "$", "??", "[][]", "$$", "int8??", "int8[][]", "int8?[]", "int8[]?", "int8$", "int8[]$", "int8$?", "int8$[]", "int8?" * 40, "int8" + "[]" * 200, "a" * 5000, "int9", "\x01", "[]int8", "int 8", "extended_asset[]", "extended_asset?", "\xff", "é"]
LENGTHS = """{"version":"eosio::abi/1.1","structs":[{"name":"S","base":"","fields":[{"name":"x","type":"uint8"},{"name":"b","type":"bytes"},{"name":"s","type":"string"},{"name":"l","type":"uint16[]"}]},
{"name":"L","base":"","fields":[{"name":"l","type":"S[]"}]},{"name":"T","base":"S","fields":[{"name":"t","type":"L?"},{"name":"v","type":"V[]"}]}],"variants":[{"name":"V","types":["bytes","string[]"]}]}"""
SEQ = ["j2b", "j2r", "b2j", "h2j"]


def hostile_json(r, good=None):
    k = r.random()
    if good is None or k < .2: return r.choice(NASTY)
    b = good if isinstance(good, bytes) else good.encode()
    if k < .3: return b[:r.randrange(len(b) + 1)]
    if k < .4: return b + r.choice(NASTY)[:300]
    if k < .55:
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 4])):
            if b: b[r.randrange(len(b))] = r.choice(b'{}[]",:\\0-.eEtn \0\xff\x80')
        return bytes(b)
    if k < .65:
        i = r.randrange(len(b) + 1)
        return b[:i] + r.choice(NASTY)[:2000] + b[i:]
    if k < .75:
        i, j = sorted((r.randrange(len(b) + 1), r.randrange(len(b) + 1)))
        return b[:i] + b[i:j] * r.choice([2, 3, 50]) + b[j:]
    try: t = R.jparse(b)
    except ValueError: return b
    for _ in range(r.choice([1, 1, 2, 5])): t = dyn.mutate_tree(t, r)[1]
    return R.jwrite(t, r).encode()


def hostile_bin(r, good):
    if r.random() < .1: return r.randbytes(r.choice([0, 1, 2, 5, 20, 100]))
    for _ in range(r.choice([1, 1, 1, 2, 4])): good = dyn.mutate_bin(good, r)
    return good


def hostile_hex(r, b):
    h = b.hex()
    k = r.random()
    if k < .3: return h[:-1] if h else "0"
    if k < .5 and h:
        i = r.randrange(len(h))
        return h[:i] + r.choice("gG xzZ-\x7f") + h[i + 1:]
    return h.upper() if k < .7 else h


def abi_bombs(r):
    """definitions built to exhaust the resolver: long chains, cycles, wide variants, stacked suffixes, huge names"""
    n = r.choice([3, 31, 32, 33, 40, 300, 3000])
    k = r.randrange(10)
    d = {"version": "eosio::abi/1.1", "types": [], "structs": [], "variants": []}
    suf = r.choice(["", "", "[]", "?", "$"])
    if k == 0: d["types"] = [{"new_type_name": "t%d" % i, "type": "t%d" % (i + 1) + suf} for i in range(n)] + [{"new_type_name": "t%d" % n, "type": r.choice(["int8", "t0"])}]
    if k == 1: d["structs"] = [{"name": "s%d" % i, "base": "s%d" % (i + 1), "fields": [{"name": "a", "type": "int8"}]} for i in range(n)] + [{"name": "s%d" % n, "base": r.choice(["", "s0"]), "fields": []}]
    if k == 2: d["structs"] = [{"name": "s%d" % i, "base": "", "fields": [{"name": "a", "type": "s%d" % (i + 1) + suf}]} for i in range(n)] + [{"name": "s%d" % n, "base": "", "fields": r.choice([[], [{"name": "a", "type": "s0" + suf}]])}]
    if k == 3: d["variants"] = [{"name": "v%d" % i, "types": ["v%d" % (i + 1) + suf, "int8"]} for i in range(n)] + [{"name": "v%d" % n, "types": ["v0" if r.random() < .5 else "int8"]}]
    if k == 4: d["variants"] = [{"name": "v", "types": ["int8"] * n}, {"name": "w", "types": []}]
    if k == 5: d["structs"] = [{"name": "s", "base": "", "fields": [{"name": "f%d" % i, "type": "int8" + suf} for i in range(n)]}, {"name": "e", "base": "", "fields": []}]
    if k == 6: d["types"] = [{"new_type_name": "x" * n, "type": "int8" + suf * r.choice([1, 2, n])}]
    if k == 7: d["structs"] = [{"name": "self", "base": "", "fields": [{"name": "a", "type": "self" + suf}]}]; d["variants"] = [{"name": "vs", "types": ["vs" + suf, "self"]}]
    if k == 8: d["types"] = [{"new_type_name": "x", "type": "x" + suf}, {"new_type_name": "", "type": "int8"}]
    if k == 9: d["structs"] = [{"name": "s", "base": "s" if r.random() < .5 else "int8" if r.random() < .5 else "v", "fields": []}]; d["variants"] = [{"name": "v", "types": ["s"]}]
    for key in ("types", "structs", "variants"):
        if r.random() < .5: r.shuffle(d[key])
    return R.Abi(d)


def run():
    c = Check("C01", "a case is one C-interface call with mutated, random, truncated, null or resource-exhausting ABI, type name, JSON, binary or hex, in histories of mixed calls; distinct by its arguments. "
              "A violation is a sanitizer report (address, undefined behaviour, leak), a crash, a call that does not return, or a failure without a message",
              assumptions=["instrumented build by g++ -O1 with address, leak and undefined-behaviour sanitizers (and clang with libFuzzer)",
                           "arrays of zero-size elements are not given huge counts (they amplify output by design)", "JSON reader is the shim in /verif/shim"])
    r, p = c.rng, Plan(c, build("vh"))

    def total(res):
        if res.err and not res.f[0]: return "failed without an error message"
    def add(s, o, *a):
        c.count((o, a), "call_" + o)
        s.add(total, o, *a)

    for i in range(c.n(700, 15000)):
        a = R.gen_abi(r)
        while not all(dyn.dense(a, t) for _, t in R.usable_types(a)): a = R.gen_abi(r)
        s = p.script()
        s.add(total, "ctx", 1)
        s.add(total, "abi", 1, 1, a.json())
        ts = R.usable_types(a) + [(n, dyn.builtin_t(n)) for n in r.sample(R.BUILTINS, 3)]
        ts += [(n + "[]", ("[]", t)) for n, t in ts if t[0] not in ("[]", "?", "$") and r.random() < .5]
        ts = r.sample(ts, min(len(ts), 7))
        vals = [a.gen(t, r) for _, t in ts]
        for _ in range(30):
            k = r.random()
            q = r.randrange(len(ts))
            (n, t), v = ts[q], vals[q]
            if k < .05: n = r.choice(TYPES + [n + "[]", n + "?", n + "$", n + "\0", n[:-1], n + " "])
            if k < .5:
                g = r.choice([R.jwrite(a.spell(t, v, r)), R.jwrite(a.out(t, v)) if r.random() < .9 else None]) if True else None
                add(s, r.choice(["j2b", "j2r"]), 1, 1, n, hostile_json(r, g))
            elif k < .75: add(s, "b2j", 1, 1, n, hostile_bin(r, a.enc(t, v)))
            elif k < .8: add(s, "h2j", 1, 1, n, hostile_hex(r, hostile_bin(r, a.enc(t, v))))
            elif k < .83: add(s, r.choice(["j2b", "j2r"]), 1, 1, r.choice([None, n]), r.choice([None, b"1"]))
            elif k < .85: add(s, "b2j", 1, 1, r.choice([None, n]), r.choice([None, b""]))
            elif k < .853: add(s, "b2j", 1, 1, r.choice([None, n]), None, r.choice([0, 1, 5, 1 << 20, 1 << 40]))
            elif k < .856: add(s, "abib", 1, r.choice([1, 2, 3]), None, r.choice([0, 1, 5, 1 << 20, 1 << 40]))
            elif k < .86: add(s, "h2j", 1, 1, r.choice([None, n]), r.choice([None, b""]))
            elif k < .88: add(s, "s2n", 1, r.choice([None, b"", b"." * 30, b"zzzzzzzzzzzzzz", b"\xff\x00abc", r.randbytes(r.randrange(20)).replace(b"\0", b"a")]))
            elif k < .89: add(s, "n2s", 1, str(r.choice([0, 1, A.M64, r.getrandbits(64)])))
            elif k < .9: add(s, r.choice(["act", "tab"]), 1, r.choice([0, 1, 2]), str(r.getrandbits(64)))
            elif k < .93: add(s, r.choice(["data", "hex", "size", "err", "isnull"]), r.choice([1, None]))
            elif k < .96: add(s, "abi", 1, r.choice([1, 2, 3]), r.choice([None, hostile_json(r, a.json())]) if r.random() < .9 else abi_bombs(r).json())
            elif k < .98: add(s, "abib", 1, r.choice([2, 3]), r.choice([None, hostile_bin(r, a.bin()), r.randbytes(40)]))
            else: add(s, "abih", 1, r.choice([2, 3]), r.choice([None, hostile_hex(r, hostile_bin(r, a.bin())), "zz", "0"]))
        if len(p.scripts) >= 2000: p.run(leaks=True)
    # definitions mutated or built to exhaust the resolver, then used
    for i in range(c.n(900, 20000)):
        s = p.script()
        s.add(total, "ctx", 1)
        bomb = r.random() < .35
        a = abi_bombs(r) if bomb else R.gen_abi(r)
        k = r.random()
        if bomb: g = ("abi", a.json()) if k < .7 else ("abib", a.bin()) if k < .9 else ("abih", a.bin().hex())
        else: g = ("abi", hostile_json(r, a.json())) if k < .6 else ("abib", hostile_bin(r, a.bin())) if k < .9 else ("abih", hostile_hex(r, hostile_bin(r, a.bin())))
        add(s, g[0], 1, 1, g[1])
        names = [x[k] for key, k in (("types", "new_type_name"), ("structs", "name"), ("variants", "name")) for x in a.d.get(key, [])]
        for n in r.sample(names, min(len(names), 4)) + ["int8"]:
            n += r.choice(["", "", "[]", "?", "$"])
            # documents deep enough for every chain
            add(s, "j2b", 1, 1, n, r.choice([b"{}", b"[]", b"1", b"null", b'["int8",1]', b'{"a":' * 200 + b"1", b"[" * 300, b'{"a":null}', b'["v1",' * 300, b'{"a":[' * 200]))
            add(s, "j2r", 1, 1, n, r.choice([b"{}", b"[]", b"1", b"null", b'["int8",1]', b'{"a":' * 150 + b"1" + b"}" * 150, b"[" * 300 + b"]" * 300, b'{"a":[' * 90 + b"]}" * 90]))
            add(s, "b2j", 1, 1, n, r.choice([b"", b"\0", b"\1" * 300, b"\0" * 300, bytes(r.randrange(3) for _ in range(200)), bytes(r.randrange(127) for _ in range(60))]))
        if len(p.scripts) >= 2000: p.run(leaks=True)
    # every built-in with every nasty document and short random bytes
    for n in R.BUILTINS:
        for suf in ("", "[]", "?"):
            s = p.script()
            s.add(total, "ctx", 1)
            s.add(total, "abi", 1, 1, dyn.BUILTIN_ABI.json())
            for d in NASTY:
                if r.random() < (.7 if c.thorough else .25) or not suf:
                    for o in ("j2b", "j2r"): add(s, o, 1, 1, n + suf, d)
            for _ in range(c.n(60, 1500)):
                add(s, "b2j", 1, 1, n + suf, r.randbytes(r.choice([0, 1, 2, 4, 8, 15, 16, 17, 33, 34, 35, 65, 66, 67, 100])) if r.random() < .5 else hostile_bin(r, dyn.BUILTIN_ABI.enc(dyn.builtin_t(n), dyn.BUILTIN_ABI.gen(dyn.builtin_t(n), r))))
    # lengths and counts of every size, up to ones that wrap an address, in front of each kind of sized data and inside a definition
    def leb(v):
        o = bytearray()
        while True:
            o.append(v & 127 | (128 if v > 127 else 0))
            v >>= 7
            if not v: return bytes(o)
    huge = [leb(x) for k in (7, 8, 14, 16, 24, 28, 30, 31, 32, 33, 35, 40, 47, 48, 56, 62, 63) for x in (2 ** k - 1, 2 ** k, 2 ** k + 1)]
    huge += [leb(2 ** 64 - x) for x in (1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 64, 100, 255, 256, 4096, 2 ** 16, 2 ** 31, 2 ** 32)]
    huge += [b"\xff" * n for n in (4, 5, 9, 10, 11, 12)] + [b"\xff" * n + b"\x7f" for n in (4, 5, 9, 10, 11)] + [b"\x80" * n + b"\x00" for n in (4, 5, 9, 10)]
    s = p.script()
    s.add(total, "ctx", 1)
    s.add(total, "abi", 1, 1, LENGTHS.encode())
    for h in huge:
        for tail in (b"", b"a", b"abcdefgh" * 4):
            for n, pre in (("bytes", b""), ("string", b""), ("uint8[]", b""), ("string[]", b""), ("string[]", b"\2\1a"), ("bytes[]", b"\1"), ("V", b""), ("V", b"\0"), ("V", b"\1"), ("V", b"\1\1"), ("S", b"\0"), ("S", b"\0\2ab"), ("S", b"\0\0\0"),
                           ("T", b"\0\0\0\0\1"), ("T", b"\0\0\0\0\0"), ("T", b"\0\0\0\0\0\1\0"), ("varuint32", b""), ("signature", b""), ("public_key", b""), ("int8", b"")):
                add(s, "b2j", 1, 1, n, pre + h + tail)
    b = bytes.fromhex("0e656f73696f3a3a6162692f312e31") + b"\1\1a\1b\1\1c\0\1\1d\1e\1" + b"\1" * 8 + b"\1f\0\1" + b"\2" * 8 + b"\1g\1\1h\1\1i\1j\0\0\0\1\1k\1\1l"
    for i in range(15, len(b)):
        for h in huge[::1 if c.thorough else 3]: add(s, "abib", 1, 2, b[:i] + h + b[i + (i % 2):])
    c.sample({"history": p.scripts[0].lines[:6]})
    p.run(leaks=True)
    fuzz.run(c, "capi", runs=c.n(25000, 600000))
    return c.finish(1000)
