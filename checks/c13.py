"""Names: text <-> 64-bit value, order, strict and lenient parsing, the hash of other texts, and the command-line tool."""
import os, subprocess
from lib.build import build, REPO, H
from lib.check import Check
from lib.plan import Plan
from lib.run import ENV
from ref import abi as R, algos as A


LITERALS = ("a z 1 5 eosio eosio.token a.b .a ..z zzzzzzzzzzzz zzzzzzzzzzzzj ............1 abcdefghijkl mnopqrstuvwx yz12345.abcd aaaaaaaaaaaaa 12345.54321.j 111111111111 "
            "5555555555555 a1b2c3d4e5f1g").split()


def run():
    c = Check("C13", "a case is one 64-bit value printed and parsed back, or one text parsed strictly, leniently and from JSON, or one call of the name tool; values with every bit pattern "
              "class per character, texts of 0..20 characters over and beside the alphabet; judged against an independent base-32 packing; distinct by value or text")
    r, p = c.rng, Plan(c, build("vh"))
    st = {"s": None, "k": 0}

    def add(judge, *a):
        if st["k"] % 300 == 0:
            st["s"] = p.script()
            st["s"].add(None, "ctx", 1)
            st["s"].add(None, "abi", 1, 1, '{"version":"eosio::abi/1.0"}')
        st["k"] += 1
        st["s"].add(judge, *a)

    def eq(*want):
        want = [str(w).encode() if not isinstance(w, bytes) else w for w in want]
        return lambda res: None if res.ok and res.f[:len(want)] == want else "should give %r, got %r" % (want, res)

    order = []

    def value(v):
        t = A.name_text(v)
        c.count(("v", v), "values")
        k = t.rfind(".")
        pre = A.name_strict(t[:k].encode()) if k >= 0 else v
        if "." in t.lstrip("."):
            suf = A.name_strict(t[k + 1:].encode())
        else: suf = None   # only leading dots: both readings are in use
        def j(res):
            if not res.ok: return "printing refused: %r" % res
            if res.f[0] != t.encode(): return "%d should print as %r, got %r" % (v, t, res.f[0])
            if int(res.f[1]) != len(t): return "%r: length %s" % (t, res.f[1])
            gp, gs = map(int, res.f[2].split())
            if suf is not None and (gp, gs) != (pre, suf): return "%r: prefix and suffix %r %r" % (t, A.name_text(gp), A.name_text(gs))
            order.append((v, res.f[0]))
        add(j, "nameval", str(v))
        add(eq(t.encode()), "n2s", 1, str(v))
        add(eq(v), "s2n", 1, t)
        add(eq(v, v, v), "name", t)
        b = v.to_bytes(8, "little")
        add(lambda res: None if res.ok and res.f[0] == b and res.f[1] == ('"%s"' % t).encode() else "name %r read as %r" % (t, res), "nj", "name", '"%s"' % t)
        add(eq(('"%s"' % t).encode()), "b2j", 1, 1, "name", b)
        add(eq(b), "j2b", 1, 1, "name", '"%s"' % t)

    def text(b, js=True):
        c.count(("t", b), "texts")
        st_, le = A.name_strict(b), A.name_lenient(b)
        add(eq(le, "error" if st_ is None else st_, A.name_json(b)), "name", b)
        if 0 not in b: add(eq(le), "s2n", 1, b)
        try: q = R.jstr(b)
        except UnicodeDecodeError: return
        w = A.name_json(b).to_bytes(8, "little")
        add(eq(w), "nj", "name", q)
        if 0 not in b: add(eq(w), r.choice(["j2b", "j2r"]), 1, 1, "name", q)

    for i in range(64):
        for v in (1 << i, (1 << i) - 1, A.M64 ^ (1 << i), A.M64 << i & A.M64): value(v)
    for pos in range(13):
        for ch in range(32 if pos < 12 else 16):
            v = ch << (59 - 5 * pos) if pos < 12 else ch
            value(v)
            value(v | A.name_strict(b"zzzzzzzzzzzzj") & ~((31 << (59 - 5 * pos)) if pos < 12 else 15))
    for _ in range(c.n(2500, 100000)):
        k = r.random()
        if k < .3: value(r.getrandbits(64))
        else:
            n = r.randrange(14)
            value(A.name_strict(bytes([r.choice(A.CH.encode() if r.random() < .6 else b".a") for _ in range(min(n, 12))] + ([r.choice(b".12345abcdefghij")] if n == 13 else []))))
    # every character in every position (strict parsing accepts exactly the alphabet; the 13th character up to 'j')
    for pos in range(13):
        for ch in range(256): text(b"abcdefghij12z"[:pos] + bytes([ch]), pos in (0, 12))
    for ch in range(256):
        add(lambda res, ch=ch: None if (res.ok and int(res.f[0]) == A.CH.index(chr(ch)) if chr(ch) in A.CH else res.err) else "character %d gives %r" % (ch, res), "namechar", bytes([ch]))
    for n in range(20):
        for base in (b"a", b".", b"z", b"1", b"5", b"j", b"k"): text(base * n)
        text((b"abcdefghijkl" * 2)[:n])
        text((b"eosio.token.x." * 2)[:n])
    for _ in range(c.n(2500, 80000)):
        k = r.random()
        n = r.choice([r.randrange(12), 12, 13, 14, r.randrange(30)])
        if k < .4: b = bytes(r.choice(A.CH.encode()) for _ in range(n))
        elif k < .7: b = bytes(r.choice(A.CH.encode() + b"6ABZ _-") for _ in range(n))
        elif k < .85: b = r.randbytes(n)
        else: b = "".join(r.choice(R.ALPH) for _ in range(n)).encode()
        text(b)
    p.run()
    literals(c)
    # names order as their values do, and distinct values have distinct texts
    order.sort()
    rank = {ch: i for i, ch in enumerate(A.CH.encode())}
    for (v1, t1), (v2, t2) in zip(order, order[1:]):
        c.count(None, "order_pairs")
        k1, k2 = [rank[x] for x in t1.ljust(13, b".")], [rank[x] for x in t2.ljust(13, b".")]
        if (v1 < v2) != (k1 < k2): c.violate("order", "values %d < %d but texts %r, %r" % (v1, v2, t1, t2))
    tool(c, r)
    return c.finish(1000)


def literals(c):
    """the values of names written as literals, as the compiler computes them"""
    from lib import build as B
    try: exe = build("lit", [os.path.join(B.H, "lit.cpp")], "asan0")
    except B.BuildError as e:  # (everything else was built by now)
        c.violate("literal-refused", "literals of valid names do not compile: " + str(e)[:1500])
        return
    q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(ENV), timeout=60)
    got = dict(l.rsplit(" ", 1) for l in q.stdout.decode(errors="replace").splitlines() if " " in l)
    for t in LITERALS:
        c.count(("lit", t), "literals")
        want = A.name_strict(t.encode())
        if got.get(t) != str(want): c.violate("literal", "the literal %s has the value %r instead of %s" % (t, got.get(t), want))


def tool(c, r):
    """tools/name.cpp: name2num and num2name, arguments or standard input"""
    exe = build("name", [os.path.join(REPO, "tools/name.cpp")], "asan")
    env = dict(ENV)

    def call(args, inp, argv0):
        q = subprocess.run([argv0] + args, executable=exe, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        return q.returncode, q.stdout.decode(errors="replace").split("\n")[:-1], q.stderr.decode(errors="replace")

    for i in range(c.n(40, 500)):
        vals = [r.choice([r.getrandbits(64), R.SCALARS["name"].gen(r), 0, 1, A.M64]) for _ in range(6)]
        names = [A.name_text(v) for v in vals]
        bad = r.random() < .3
        stdin = r.random() < .5
        num = r.random() < .5
        if num:   # numbers -> names
            items = [r.choice([str, hex])(v) for v in vals]
            want = list(names)
            bt = "12x"
        else:
            items = [n for n in names if n]
            want = [v for n, v in zip(names, vals) if n]
            bt = r.choice(["UPPER", "toolongnameabc", "a b", "zzzzzzzzzzzzz"])
        k = r.randrange(len(items) + 1)
        if bad: items.insert(k, bt)
        flags, dec = [], False
        if not num:
            f = r.choice([[], ["-x"], ["-d"], ["--dec"], ["--hex"], ["-xd"]])
            flags, dec = f, f in (["-d"], ["--dec"], ["-xd"])
            want = [("%d" % v if dec else ("0x%x" % v if v else "0")) for v in want]
        argv0 = "num2name" if num else "name2num"
        if r.random() < .3: argv0, flags = ("name2num" if num else "num2name"), flags + [r.choice(["-r", "--reverse"])]
        c.count(("tool", num, tuple(items), tuple(flags), stdin), "tool_calls")
        args = flags + ([] if stdin else items)
        rc, out, err = call(args, ("".join(x + "\n" for x in items)).encode() if stdin else b"", argv0)
        if rc in (98, 99): c.violate("tool-crash", "%s %r: %s" % (argv0, args, err[-1500:]))
        elif (rc != 0) != bad or out != want: c.violate("tool", "%s %r %r: exit %d, printed %r, should print %r" % (argv0, args, items, rc, out, want))
