"""Workload and judges shared by the checks of ABI-described conversion."""
import random
from ref import abi as R, algos as A
from ref.abi import Reject, Unspec, BadAbi


def judge_bin(key, want):
    """want: expected bytes, or None when the conversion must be refused"""
    def j(r):
        if want is None:
            return None if r.err and r.f[0] else (key + ":accepted", "should be rejected with a message, got %r" % r)
        if not r.ok: return (key + ":rejected", "should give %s, got %r" % (want.hex(), r))
        if r.f[0] != want: return (key + ":bytes", "should give %s, got %s" % (want.hex(), r.f[0].hex()))
        if len(r.f) > 1 and r.f[1] != want.hex().upper().encode(): return (key + ":hex", "hex form %r differs from the binary" % r.f[1])
    return j


def judge_json(key, want, want_len=None):
    """want: expected JSON tree, or None when the conversion must be refused"""
    def j(r):
        if want is None:
            return None if r.err and r.f[0] else (key + ":accepted", "should be rejected with a message, got %r" % r)
        if not r.ok: return (key + ":rejected", "should give %s, got %r" % (R.jwrite(want), r))
        try: got = R.jparse(r.f[0])
        except (ValueError, UnicodeDecodeError) as e: return (key + ":invalid-json", "%s: %r" % (e, r.f[0]))
        d = R.jsame(want, got)
        if d: return (key + ":json", "should give %s, got %r (%s)" % (R.jwrite(want), r.f[0], d))
    return j


def setup(s, a, ctx=1, contract=1):
    from lib.plan import expect_ok
    s.add(lambda r: None if r.ok else ("load", "well-formed ABI rejected: %r" % r), "ctx", ctx)
    s.add(lambda r: None if r.ok else ("load", "well-formed ABI rejected: %r" % r), "abi", ctx, contract, a.json())


def tname(t):
    """short label of a resolved type"""
    return t[1] if t[0] == "b" else {"s": "struct", "v": "variant", "?": "optional", "[]": "array", "$": "extension"}[t[0]]


BUILTIN_ABI = R.Abi({"version": "eosio::abi/1.1", "types": [], "structs": [], "actions": [], "tables": [], "variants": []})


def builtin_t(n): return ("s", n) if n == "extended_asset" else ("b", n)


# ---------------------------------------------------------------- large values
def big_abi():
    f = lambda *l: [{"name": n, "type": t} for n, t in l]
    types = [{"new_type_name": "al%d" % i, "type": ["int8", "uint16", "string"][i % 3]} for i in range(300)]
    structs = [{"name": "Pt", "base": "", "fields": f(("x", "int8"))}, {"name": "Nil", "base": "", "fields": []},
               {"name": "Wide", "base": "", "fields": f(*[("m%d" % i, ["int8", "bool", "string"][i % 3]) for i in range(300)])},
               {"name": "WideD", "base": "Wide", "fields": f(*[("d%d" % i, "uint8") for i in range(20)] + [("e%d" % i, "uint8$") for i in range(20)])},
               {"name": "Hold", "base": "", "fields": f(("a", "int8[]"), ("z", "uint16"), ("p", "Pt[]"), ("o", "Row?"), ("y", "uint16"))},
               {"name": "Row", "base": "", "fields": f(("n", "string"), ("c", "uint8[]"), ("e", "varuint32$"))},
               {"name": "Text", "base": "", "fields": f(("s", "string"), ("b", "bytes"), ("k", "public_key"))}]
    variants = [{"name": "V", "types": ["int8", "string", "Pt"]}, {"name": "Many", "types": ["al%d" % i for i in range(300)]}]
    a = Abi({"version": "eosio::abi/1.1", "types": types, "structs": structs, "actions": [], "tables": [], "variants": variants})
    a.validate()
    return a


from ref.abi import Abi
COUNTS = [128, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70001, 131072]


def big_values(a, r, n=40, top=1 << 18):
    """(type name, resolved type, value): many elements, long text, many members or alternatives; a and top as returned by big_abi"""
    def size(): return r.choice(COUNTS + [r.randrange(300, 3000)])
    def pts(k): return [[x] for x in r.choices(range(-128, 128), k=k)]
    kinds = [
        lambda k: ("int8[]", r.choices(range(-128, 128), k=k)),
        lambda k: ("bool[]", r.choices([False, True], k=k)),
        lambda k: ("uint16[]", r.choices(range(65536), k=k)),
        lambda k: ("varuint32[]", r.choices([0, 127, 128, 16384, 1 << 21, 1 << 28, (1 << 32) - 1], k=k)),
        lambda k: ("string[]", r.choices([b"", b"a", b"xyz"], k=k)),
        lambda k: ("name[]", r.choices([0, 1, A.name_json(b"eosio"), (1 << 64) - 1], k=k)),
        lambda k: ("Pt[]", pts(k)),
        lambda k: ("Nil[]", [[] for _ in range(k)]),
        lambda k: ("V[]", [r.choice([(0, 5), (1, b"q"), (2, [7])]) for _ in range(k)]),
        lambda k: ("string", bytes(r.choices(b"abcXYZ 01\"\\\n\x01\x7f", k=k))),
        lambda k: ("string", (("é€\U0001f600" * (k // 3 + 1)).encode()[:k // 9 * 9])),
        lambda k: ("bytes", r.randbytes(k)),
        lambda k: ("Text", [b"s" * k, r.randbytes(size() % 5000), (0, r.randbytes(33))]),
        lambda k: ("Hold", [r.choices(range(-128, 128), k=k), 513, pts(size() % 3000), ("some", [b"t", r.choices(range(256), k=size() % 4000), 5]), 1027]),
        lambda k: ("Row[]", [[b"r", [1, 2], 300] for _ in range(k)]),
        lambda k: ("Pt[]", pts(k)),
        lambda k: ("int8[]", r.choices(range(-128, 128), k=k)),
    ]
    for kind in kinds[:11]:      # each limit of a 15, 16 or 8-bit counter at least once per kind
        for k in (32769, 65537):
            yield kind(k)
    for _ in range(n): yield r.choice(kinds)(min(size(), top))
    for i in [0, 127, 128, 254, 255, 256, 299] + r.choices(range(300), k=6): yield ("Many", (i, [7, 777, b"seven"][i % 3]))
    yield ("Many[]", [(i, [7, 777, b"seven"][i % 3]) for i in range(300)])
    w = [[5, True, b"w"][i % 3] for i in range(300)]
    yield ("Wide", w)
    for k in (0, 1, 19, 20): yield ("WideD", w + list(range(20)) + list(range(k)))


def dense(a, t, seen=frozenset()):
    """each array element occupies at least one byte"""
    k = t[0]
    if k == "b" or t in seen: return True
    seen = seen | {t}
    if k == "[]": return a.minwire(t[1]) > 0 and dense(a, t[1], seen)
    if k in "?$": return dense(a, t[1], seen)
    return all(dense(a, x, seen) for _, x in (a.fields(t[1]) if k == "s" else a.alts(t[1])))


# ---------------------------------------------------------------- mutation of JSON trees
def positions(t, path=()):
    yield path
    if t[0] == "a":
        for i, x in enumerate(t[1]): yield from positions(x, path + (i,))
    if t[0] == "o":
        for i, (_, x) in enumerate(t[1]): yield from positions(x, path + (i,))


def get(t, path):
    for i in path: t = t[1][i] if t[0] == "a" else t[1][i][1]
    return t


def put(t, path, new):
    if not path: return new
    i = path[0]
    l = list(t[1])
    if t[0] == "a": l[i] = put(l[i], path[1:], new)
    else: l[i] = (l[i][0], put(l[i][1], path[1:], new))
    return (t[0], l)


ATOMS = [("n",), ("b", True), ("b", False), R.T(""), R.T("0", True), R.T("1"), R.T("-1", True), R.T("x"), ("a", []), ("o", []), ("a", [R.T("int8"), R.T("1", True)]), ("a", [("a", [])])]


def mutate_tree(t, r):
    """one random structural or scalar edit; returns (kind, tree)"""
    ps = list(positions(t))
    for _ in range(20):
        p = r.choice(ps)
        x = get(t, p)
        k = r.randrange(9)
        if k == 0: return "atom", put(t, p, r.choice(ATOMS))
        if k == 1 and x[0] == "t":
            b = bytearray(x[1])
            e = r.randrange(4)
            if e == 0 and b: del b[r.randrange(len(b))]
            elif e == 1: b.insert(r.randrange(len(b) + 1), r.choice(b"09aAzZ.-+, :/T_"))
            elif e == 2 and b: b[r.randrange(len(b))] = r.choice(b"0159aAfFgzZ.-+, :/T_")
            else: b += r.choice([b" ", b"0", b"x", b"\0"])
            try: b.decode()
            except UnicodeDecodeError: continue
            return "text", put(t, p, ("t", bytes(b), False))
        if k in (2, 3) and x[0] == "o" and x[1]:
            l = list(x[1])
            i = r.randrange(len(l))
            e = r.randrange(4)
            if e == 0: del l[i]; return "drop-member", put(t, p, ("o", l))
            if e == 1:
                l.insert(r.randrange(len(l) + 1), (r.choice([b"zz_unknown", b"", l[i][0] + b"x"]), r.choice(ATOMS)))
                return "add-member", put(t, p, ("o", l))
            if e == 2 and len(l) > 1:
                j = r.randrange(len(l))
                l[i], l[j] = l[j], l[i]
                return "swap-members", put(t, p, ("o", l))
            if e == 3: l[i] = (r.choice([l[i][0] + b"_", l[i][0].decode()[:-1].encode(), l[i][0].swapcase(), b""]), l[i][1]); return "rename-member", put(t, p, ("o", l))
        if k in (4, 5) and x[0] == "a":
            l = list(x[1])
            e = r.randrange(3)
            if e == 0 and l: del l[r.randrange(len(l))]; return "drop-element", put(t, p, ("a", l))
            if e == 1: l.insert(r.randrange(len(l) + 1), r.choice(l + ATOMS[:6])); return "add-element", put(t, p, ("a", l))
            if e == 2 and l and l[0][0] == "t": l[0] = R.T(l[0][1] + b"x"); return "variant-name", put(t, p, ("a", l))
        if k == 6 and x[0] == "o" and x[1]:
            l = list(x[1])
            l.append(r.choice(l)); return "dup-member", put(t, p, ("o", l))
        if k == 7 and x[0] == "t": return "number-or-string", put(t, p, ("t", x[1], False))
        if k == 8 and x[0] in "ao": return "wrap", put(t, p, ("a", [x]))
    return "atom", put(t, r.choice(ps), r.choice(ATOMS))


def shuffle_members(t, r):
    if t[0] == "a": return ("a", [shuffle_members(x, r) for x in t[1]])
    if t[0] == "o":
        l = [(k, shuffle_members(x, r)) for k, x in t[1]]
        r.shuffle(l)
        return ("o", l)
    return t


def ref_bytes(a, t, tree, strict):
    """expected encoding, None if the document must be refused; Unspec if the properties do not say"""
    try: return a.enc(t, a.parse(t, tree, strict))
    except Reject: return None


# ---------------------------------------------------------------- mutation of binary
def mutate_bin(b, r):
    b = bytearray(b)
    k = r.randrange(8)
    if k == 0: return bytes(b[:r.randrange(len(b) + 1)])
    if k == 1: return bytes(b) + r.randbytes(r.choice([1, 1, 2, 5]))
    if not b: return r.randbytes(r.randrange(4))
    i = r.randrange(len(b))
    if k == 2: b[i] ^= 1 << r.randrange(8)
    elif k == 3: b[i] = r.choice([0, 1, 2, 3, 127, 128, 255])
    elif k == 4: del b[i]
    elif k == 5: b.insert(i, r.choice([0, 1, 128, 255]))
    elif k == 6: b[i:i + 1] = r.choice([b"\xff\xff\xff\xff\x0f", b"\x80\x80\x80\x80\x10", b"\x80\x80\x80\x80\x80\x00", b"\x80\x00", b"\xff" * 10 + b"\x01", b"\xfe\xff\xff\xff\x07"])
    else: b[i:i + 1] = r.randbytes(r.randrange(5))
    return bytes(b)
