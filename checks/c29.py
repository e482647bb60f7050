"""The step callback and the nesting limit: the callback of the caller is observed (and made to throw) at every call it receives."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn

LIMIT_OK, LIMIT_BAD = 120, 140   # the fixed limit lies between


def size(a, t, v):
    """array elements, struct members and variant values inside v"""
    k = t[0]
    if k == "b": return 0
    if k == "?": return 0 if v is None else size(a, t[1], v[1])
    if k == "$": return size(a, t[1], v)
    if k == "[]": return sum(1 + size(a, t[1], x) for x in v)
    if k == "s": return sum(1 + size(a, ft, x) for (_, ft), x in zip(a.fields(t[1]), v))
    return 1 + size(a, a.alts(t[1])[v[0]][1], v[1])


def run():
    c = Check("C29", "a case is one conversion of a random value with a counting callback, the same conversion with the callback throwing at call k (every k for small values), or one value "
              "nested to a chosen depth through arrays, optionals, structs and variants; observed: calls made, where it stopped, result; distinct by type shape, direction and k")
    r, p = c.rng, Plan(c, build("vh"))
    todo = []

    def first(s, i, a, n, t, v):
        b, js = a.enc(t, v), R.jwrite(a.spell(t, v, r))
        cnt = size(a, t, v)
        for d, data in (("j2b", js), ("j2r", js), ("b2j", b)):
            def j(res, d=d, data=data):
                if not res.ok or res.f[0] != b"done": return (d, "conversion with an idle callback gives %r" % res)
                calls = int(res.f[1])
                todo.append((i, d, n, data, calls))
                if calls < cnt: return (d + ":calls", "callback ran %d times for %d elements and members" % (calls, cnt))
                if d != "b2j" and res.f[2] != b: return (d + ":result", "should give %s, got %r" % (b.hex(), res.f[2]))
                if d == "b2j":
                    try: want = a.out(t, v)
                    except R.Unspec: return None
                    df = R.jsame(want, R.jparse(res.f[2]))
                    if df: return (d + ":result", df)
            c.count((n, d, data), "idle")
            c.note("elements_and_members", cnt)
            s.add(j, "ncb", 1, d, n, data, 0)

    abis = []
    for i in range(c.n(640, 2500)):
        a = R.gen_abi(r)
        abis.append(a)
        s = p.script()
        s.add(lambda res: None if res.ok else ("load", repr(res)), "nabi", 1, a.json())
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 4)):
            v = a.gen(t, r)
            first(s, i, a, n, t, v)
    c.sample({"abi": abis[0].d})
    p.run()
    by = {}
    for x in todo: by.setdefault(x[0], []).append(x)
    for i, l in by.items():
        s = p.script()
        s.add(None, "nabi", 1, abis[i].json())
        for _, d, n, data, calls in l:
            ks = range(1, calls + 1) if calls <= 25 else sorted(r.sample(range(1, calls + 1), 15) + [1, calls])
            for k in ks:
                c.count((n, d, data, k), "thrown")
                s.add(lambda res, k=k, d=d: None if res.ok and res.f[0] == b"stopped" and int(res.f[1]) == k else (d + ":not-stopped", "callback threw at call %d but the conversion gives %r" % (k, res)),
                      "ncb", 1, d, n, data, k)
            s.add(lambda res, d=d, calls=calls: None if res.ok and res.f[0] == b"done" and int(res.f[1]) == calls else (d + ":calls-differ", repr(res)), "ncb", 1, d, n, data, calls + 1)
    p.run()

    # documents that fail part way: the failure must not depend on the callback
    for i in r.sample(range(len(abis)), min(len(abis), 60)):
        a = abis[i]
        s = p.script()
        s.add(None, "nabi", 1, a.json())
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 3)):
            v = a.gen(t, r)
            m = R.jwrite(dyn.mutate_tree(a.spell(t, v, r), r)[1])
            b = dyn.mutate_bin(a.enc(t, v), r)
            try: a.decode(t, b)
            except R.Reject: pass
            except R.Unspec: continue
            for d, data in (("j2b", m), ("j2r", m), ("b2j", b)):
                st = {}
                c.count((n, d, data, "fail"), "failing_documents")
                s.add(lambda res, st=st: st.update(res=res), "ncb", 1, d, n, data, 0)
                s.add(lambda res, st=st: None if (res.kind, res.f) == (st["res"].kind, st["res"].f) else "a second run gives %r, the first %r" % (res, st["res"]), "ncb", 1, d, n, data, 100000000)

    # nesting depth, counted in nested arrays, optionals, structs, variants
    rec = R.Abi({"version": "eosio::abi/1.1", "types": [], "structs": [
        {"name": "L", "base": "", "fields": [{"name": "v", "type": "uint8"}, {"name": "next", "type": "L?"}]},
        {"name": "T", "base": "", "fields": [{"name": "c", "type": "T[]"}]},
        {"name": "X", "base": "", "fields": [{"name": "v", "type": "V"}]},
        {"name": "E", "base": "", "fields": [{"name": "v", "type": "uint8"}, {"name": "x", "type": "E$"}]}],
        "variants": [{"name": "V", "types": ["uint8", "X", "V[]"]}, {"name": "R", "types": ["uint8", "R", "T", "R[]"]},
                     {"name": "P", "types": ["uint8", "Q"]}, {"name": "Q", "types": ["P", "int8"]}], "actions": [], "tables": []})

    def nest(kind, n):
        """(type, depth levels each step costs, json, binary)"""
        if kind == "L":
            js, b = '{"v":1,"next":null}', b"\1\0"
            for _ in range(n): js, b = '{"v":1,"next":%s}' % js, b"\1\1" + b
            return js, b
        if kind == "T":
            js, b = '{"c":[]}', b"\0"
            for _ in range(n): js, b = '{"c":[%s]}' % js, b"\1" + b
            return js, b
        if kind == "V":
            js, b = '["uint8",7]', b"\0\7"
            for _ in range(n): js, b = '["X",{"v":%s}]' % js, b"\1" + b
            return js, b
        if kind == "E":
            js, b = '{"v":1}', b"\1"
            for _ in range(n): js, b = '{"v":1,"x":%s}' % js, b"\1" + b
            return js, b
        if kind == "R":   # a variant in itself, directly
            js, b = '["uint8",7]', b"\0\7"
            for _ in range(n): js, b = '["R",%s]' % js, b"\1" + b
            return js, b
        if kind == "Q":   # two variants in one another, directly
            js, b = '["uint8",7]', b"\0\7"
            for i in range(n): js, b = '["%s",%s]' % ("PQ"[i % 2], js), (b"\0" if i % 2 == 0 else b"\1") + b
            return js, b
        if kind == "M":   # arrays, directly in variants, directly in one another
            js, b = '["uint8",7]', b"\0\7"
            for i in range(n): js, b = ('["R",%s]' % js, b"\1" + b) if mix[i % len(mix)] else ('["R[]",[%s]]' % js, b"\3\1" + b)
            return js, b
        js, b = '["uint8",7]', b"\0\7"
        for _ in range(n): js, b = '["V[]",[%s]]' % js, b"\2\1" + b
        return js, b

    mix = [r.random() < .8 for _ in range(7)]
    cost = {"R": (1, 1), "Q": (1, 1), "M": (1, 2), "L": (1, 2), "T": (2, 2), "V": (2, 2), "W": (2, 2), "E": (1, 1)}   # least and most levels per step
    s = p.script()
    s.add(lambda res: None if res.ok else ("load", repr(res)), "ctx", 1)
    s.add(lambda res: None if res.ok else ("load", repr(res)), "abi", 1, 1, rec.json())
    s.add(None, "nabi", 1, rec.json())
    for kind in "LTVWERQM":
        for n in sorted(set(list(range(0, 60)) + list(range(120, 150)) + [160, 200, 256, 257, 500, 1000, 3000, c.n(20000, 200000)] + [r.randrange(60, 400) for _ in range(c.n(40, 100))])):
            js, b = nest(kind, n)
            ty = {"W": "V", "M": "R", "Q": "PQ"[n % 2]}.get(kind, kind)
            lo, hi = n * cost[kind][0], n * cost[kind][1]
            want = True if hi + 3 <= LIMIT_OK else False if lo >= LIMIT_BAD else None
            if want is None: c.note("near_limit_not_judged")
            for o, data in (("j2b", js), ("j2r", js), ("b2j", b)):
                c.count((kind, o, n), "depth_" + ("accept" if want else "refuse" if want is False else "near"))
                def jd(res, o=o, want=want, b=b, js=js):
                    if want is None: return None
                    if want is False: return None if res.err and res.f[0] else ("depth:%s:accepted" % o, "nesting beyond the limit accepted")
                    if not res.ok: return ("depth:%s:rejected" % o, "nesting within the limit refused: %r" % res)
                    if o != "b2j" and res.f[0] != b: return ("depth:%s:bytes" % o, "wrong bytes")
                    if o == "b2j" and R.jsame(R.jparse(js), R.jparse(res.f[0])): return ("depth:b2j:json", "wrong document")
                s.add(jd, o, 1, 1, ty, data)
                if n <= 70 or n % 10 == 0: s.add(None, "ncb", 1, o, ty, data, 0)
    # wide data of little depth is no matter of depth
    n = c.n(20000, 300000)
    for o, data in (("j2b", '{"c":[%s]}' % ",".join(['{"c":[]}'] * n)), ("j2r", '{"c":[%s]}' % ",".join(['{"c":[]}'] * n)), ("b2j", R.leb(n) + b"\0" * n)):
        c.count(("wide", o), "wide")
        s.add(lambda res: None if res.ok else ("wide", "flat data refused: %r" % res), o, 1, 1, "T", data)
    # deep documents for types that are not deep, and deep JSON in unknown places
    for n in (100, 1000, c.n(20000, 200000)):
        for ty in ("uint8", "string", "L", "T", "V", "L[]"):
            for data in ("[" * n, "[" * n + "]" * n, '{"c":' * n, '{"c":[' * n, '["V[]",[' * n):
                for o in ("j2b", "j2r"):
                    c.count((ty, o, n, data[:6]), "hostile_depth")
                    s.add(lambda res: None if res.err and res.f[0] else ("hostile-depth", "accepted: %r" % res), o, 1, 1, ty, data)
    p.run()
    return c.finish(1000)
