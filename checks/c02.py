"""JSON -> binary equals the wire encoding of the reference model, and documents of no value are refused."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn


def run():
    c = Check("C02", "a case is one JSON document converted through a type of a loaded ABI (random ABI, or a built-in type), judged against the "
              "reference encoder; distinct by type shape and document; refused documents count when the reference model refuses them too")
    r, p = c.rng, Plan(c, build("vh"))

    def doc(s, a, name, t, tree, op="j2b", key=None, how="value"):
        key = key or dyn.tname(t)
        try: want = dyn.ref_bytes(a, t, tree, op == "j2b")
        except R.Unspec:
            c.note("unspecified_not_judged")
            s.add(None, op, 1, 1, name, R.jwrite(tree))
            return
        text = R.jwrite(tree, r)
        c.count((key, op, R.jwrite(tree)), ("rejected_" if want is None else "accepted_") + op)
        s.add(dyn.judge_bin(key + ":" + how, want), op, 1, 1, name, text)

    # every built-in type
    for n in R.BUILTINS:
        t, a = dyn.builtin_t(n), dyn.BUILTIN_ABI
        for part in range(4):
            s = p.script()
            dyn.setup(s, a)
            for i in range(c.n(60, 1500)):
                v = a.gen(t, r)
                op = r.choice(["j2b", "j2r"])
                doc(s, a, n, t, a.spell(t, v, r), op, n)
                if n in R.SCALARS:
                    for b in R.SCALARS[n].bad(r): doc(s, a, n, t, b, r.choice(["j2b", "j2r"]), n, "bad")
                doc(s, a, n, t, dyn.mutate_tree(a.spell(t, v, r), r)[1], op, n, "mutated")
                if i % 8 == 0:
                    vs = [a.gen(t, r) for _ in range(r.choice([0, 1, 2, 5, 127, 128]) if n in ("int8", "bool", "string") else r.randrange(4))]
                    doc(s, a, n + "[]", ("[]", t), a.spell(("[]", t), vs, r), op, n + "[]")
                    doc(s, a, n + "?", ("?", t), r.choice([("n",), a.spell(t, v, r)]), op, n + "?")
    # variants of no and of one alternative, structs without members
    a = R.Abi({"version": "eosio::abi/1.1", "structs": [{"name": "n", "base": "", "fields": []}, {"name": "s", "base": "", "fields": [{"name": "a", "type": "uint8"}, {"name": "b", "type": "e"}]}],
               "variants": [{"name": "e", "types": []}, {"name": "o", "types": ["uint8"]}, {"name": "on", "types": ["n"]}, {"name": "oe", "types": ["e"]}]})
    s = p.script()
    dyn.setup(s, a)

    def some(d):
        return ("a", [T(r.choice(["uint8", "n", "e", "", "o", "uint", "uint88"])), leaf(d)]) if r.random() < .7 else leaf(d)
    def leaf(d):
        k = r.randrange(8)
        if d and k < 3: return some(d - 1)
        if k == 3: return ("a", [some(0) for _ in range(r.randrange(4))])
        if k == 4: return ("o", [])
        if k == 5: return ("o", [(b"a", T("5")), (b"b", some(d - 1 if d else 0))])
        return r.choice([T("5"), ("n",), T(""), ("a", [])])
    T = R.T
    for n in ("e", "e[]", "e?", "s", "o", "o[]", "on", "on?", "on[]", "oe", "oe[]", "n", "n[]", "n?"):
        for _ in range(c.n(60, 600)):
            op = r.choice(["j2b", "j2r"])
            tree = some(2)
            doc(s, a, n, a.canon(n), ("a", [tree]) if n.endswith("[]") and r.random() < .7 else tree, op, n, "few alternatives")
    # random ABIs
    for i in range(c.n(700, 14000)):
        a = R.gen_abi(r)
        s = p.script()
        dyn.setup(s, a)
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 8)):
            for _ in range(3):
                v = a.gen(t, r)
                tree = a.spell(t, v, r)
                op = r.choice(["j2b", "j2b", "j2r"])
                doc(s, a, n, t, tree, op)
                how, m = dyn.mutate_tree(tree, r)
                c.note("mutation_" + how)
                doc(s, a, n, t, m, op, None, "mutated")
        if i < 4: c.sample({"abi": a.d, "type": n, "json": R.jwrite(tree)})
        if len(p.scripts) >= 3000: p.run()
    # many elements, members and alternatives, long text
    a = dyn.big_abi()
    s = p.script()
    for j, (n, v) in enumerate(dyn.big_values(a, r, c.n(30, 600))):
        if j % 8 == 0:
            s = p.script()
            dyn.setup(s, a)
        t = a.canon(n)
        tree = a.out(t, v)
        for op in ("j2b", "j2r") if r.random() < .5 or n == "WideD" else (r.choice(["j2b", "j2r"]),): doc(s, a, n, t, tree, op, "large " + n)
    p.run()
    return c.finish(1000)
