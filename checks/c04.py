"""Strict and reorderable JSON conversion agree: a relation between the two implementations' observed results."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn


def run():
    c = Check("C04", "a case is one JSON document given to both conversions (plus, when the strict one accepts it, a random permutation of its members given to both, "
              "and a copy with one required member removed); the two observed results are compared with each other; distinct by type shape and document")
    r, p = c.rng, Plan(c, build("vh"))

    def both(s, name, text, key, tree):
        st = {}
        def j1(res): st["strict"] = res
        def j2(res):
            a = st.get("strict")
            if a is None: return None
            c.count((key, text), "both_accept" if a.ok and res.ok else "both_refuse" if a.err and res.err else "only_reorderable" if res.ok else "only_strict")
            if a.ok and not res.ok: return (key + ":strict-only", "strict accepts (%s), reorderable answers %r" % (a.f[0].hex(), res))
            if a.ok and res.f[0] != a.f[0]: return (key + ":bytes", "strict gives %s, reorderable %s" % (a.f[0].hex(), res.f[0].hex()))
        s.add(j1, "j2b", 1, 1, name, text)
        s.add(j2, "j2r", 1, 1, name, text)
        return st

    def permuted(s, st, name, tree, key):
        sh = dyn.shuffle_members(tree, r)
        text = R.jwrite(sh, r)
        if sh == tree: return
        def j1(res):
            a = st.get("strict")
            if a is None or not a.ok: return None
            c.count((key, "perm", text), "permuted")
            if not res.ok or res.f[0] != a.f[0]: return (key + ":permuted", "reordering members changed the result %s to %r" % (a.f[0].hex(), res))
        def j2(res):
            a = st.get("strict")
            if a is None or not a.ok: return None
            if res.ok: return (key + ":strict-order", "strict conversion accepts members out of order: %r" % res)
        s.add(j1, "j2r", 1, 1, name, text)
        s.add(j2, "j2b", 1, 1, name, text)

    def missing(s, a, name, t, v, key):
        """remove one member that is not an extension"""
        cand = []
        def walk(t, v, path):
            k = t[0]
            if k == "?" and v is not None: walk(t[1], v[1], path)
            elif k == "$": walk(t[1], v, path)
            elif k == "[]":
                for i, x in enumerate(v): walk(t[1], x, path + (i,))
            elif k == "s":
                for i, ((n, ft), x) in enumerate(zip(a.fields(t[1]), v)):
                    if ft[0] != "$": cand.append((path, i))
                    walk(ft, x, path + (i,))
            elif k == "v": walk(a.alts(t[1])[v[0]][1], v[1], path + (1,))
        walk(t, v, ())
        if not cand: return
        path, i = r.choice(cand)
        tree = a.spell(t, v, r)
        x = dyn.get(tree, path)
        l = list(x[1])
        del l[i]
        tree = dyn.put(tree, path, ("o", l))
        text = R.jwrite(tree)
        c.count((key, "missing", text), "missing_member")
        for o in ("j2b", "j2r"):
            s.add(lambda res: None if res.err else (key + ":missing-member", "a required member is missing but the result is %r" % res), o, 1, 1, name, text)

    for i in range(c.n(1100, 25000)):
        a = R.gen_abi(r, r.choice([2, 4, 6, 9]))
        s = p.script()
        dyn.setup(s, a)
        ts = [x for x in R.usable_types(a) if x[1][0] != "b"]
        for n, t in r.sample(ts, min(len(ts), 5)):
            key = dyn.tname(t)
            v = a.gen(t, r, depth=r.choice([3, 6, 8]))
            tree = a.spell(t, v, r)
            st = both(s, n, R.jwrite(tree, r), key, tree)
            permuted(s, st, n, tree, key)
            missing(s, a, n, t, v, key)
            for _ in range(2):
                how, m = dyn.mutate_tree(tree, r)
                both(s, n, R.jwrite(m, r), key + ":" + how, m)
        if i < 3: c.sample({"abi": a.d, "type": n, "json": R.jwrite(tree)})
        if len(p.scripts) > 3000: p.run()
    for n in R.SCALARS:
        s = p.script()
        dyn.setup(s, dyn.BUILTIN_ABI)
        for _ in range(c.n(40, 1000)):
            t = ("b", n)
            tr = R.SCALARS[n].spell(R.SCALARS[n].gen(r), r)
            for x in [tr, dyn.mutate_tree(tr, r)[1]] + R.SCALARS[n].bad(r)[:3]:
                both(s, n, R.jwrite(x, r), n, x)
    a = dyn.big_abi()
    for j, (n, v) in enumerate(dyn.big_values(a, r, c.n(12, 500))):
        if j % 6 == 0:
            s = p.script()
            dyn.setup(s, a)
        t = a.canon(n)
        tree = a.out(t, v)
        st = both(s, n, R.jwrite(tree), "large " + n, tree)
        permuted(s, st, n, tree, "large " + n)
    p.run()
    return c.finish(1000)
