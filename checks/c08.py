"""Binary extensions: every subset of members given in JSON, every truncation of the binary, in every kind of place a struct can stand."""
import itertools
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn


def make(r):
    """an ABI around structs with extensions; extensions never have an empty encoding"""
    scal = ["int8", "uint16", "bool", "string", "bytes", "name", "uint64", "varuint32", "asset", "symbol"]
    used = set()
    def tx():
        t = r.choice(scal)
        return t + r.choice(["", "", "", "?", "[]"])
    structs, types, variants = [], [], []
    def struct(n, base, req, ext, mid=False):
        fs = [{"name": "r%d%s" % (i, n), "type": tx()} for i in range(req)]
        es = [{"name": "e%d%s" % (i, n), "type": (r.choice(["In", "V", "Al"]) if r.random() < .25 else tx()) + "$"} for i in range(ext)]
        fs += es
        if mid and es: fs.append({"name": "m" + n, "type": tx()})
        structs.append({"name": n, "base": base, "fields": fs})
    structs.append({"name": "In", "base": "", "fields": [{"name": "x", "type": "uint8"}, {"name": "y", "type": tx() + "$"}]})
    variants.append({"name": "V", "types": ["In", "uint8", "string"]})
    types.append({"new_type_name": "Al", "type": r.choice(["In", "In?", "uint16[]", "V"])})
    struct("S", "", r.choice([0, 1, 1, 2]), r.choice([1, 2, 3, 4]))
    struct("D", "S", 0, r.choice([0, 1, 2]))
    struct("B", "", r.choice([0, 1, 2]), 0)
    struct("E", "B", r.choice([0, 1]), r.choice([1, 2]))
    struct("M", "", r.choice([0, 1]), r.choice([1, 2]), True)            # an extension that something follows
    struct("N", "S", r.choice([1, 2]), r.choice([0, 1]))                 # so are S's extensions here
    for n, f in (("Last", [("a", tx()), ("s", "S")]), ("Mid", [("s", "S"), ("z", tx())]), ("Deep", [("a", tx()), ("l", "Last")]), ("Two", [("s", "S"), ("t", "S")]),
                 ("Opt", [("a", tx()), ("s", "S?")]), ("Arr", [("a", tx()), ("s", "S[]")]), ("Var", [("a", tx()), ("v", "W")]), ("Ext", [("a", tx()), ("s", "S$")]),
                 ("Als", [("s", "SA")]), ("Ext2", [("a", tx()), ("s", "D$"), ("t", "uint8$")]),
                 ("Pre", [("s", "S"), ("t", "uint8$")]), ("Pre2", [("a", tx()), ("l", "Last"), ("t", tx() + "$"), ("u", "uint8$")]), ("PreD", [("v", "W"), ("t", tx() + "$")])):
        structs.append({"name": n, "base": "", "fields": [{"name": a, "type": b} for a, b in f]})
    variants.append({"name": "W", "types": ["S", "uint8", "Mid"]})
    types.append({"new_type_name": "SA", "type": "S"})
    d = {"version": "eosio::abi/1.1", "types": types, "structs": structs, "actions": [], "tables": [], "variants": variants}
    a = R.Abi(d)
    a.validate()
    # a struct all of whose members may be absent encodes to nothing; keep such ones out of extension position
    for s in structs:
        for _, ft in a.fields(s["name"]):
            if ft[0] == "$" and not R.nonempty(a, ft[1]): return make(r)
    return a


def trim(t, r):
    """trailing members removed from any number of objects"""
    if t[0] == "a": return ("a", [trim(x, r) for x in t[1]])
    if t[0] == "o":
        l = [(k, trim(x, r)) for k, x in t[1]]
        return ("o", l[:len(l) - r.choice([0, 0, 1, 1, 2, 3])] if r.random() < .7 else l)
    return t


NAMES = ["S", "D", "E", "M", "N", "Last", "Mid", "Deep", "Two", "Opt", "Arr", "Var", "W", "Ext", "Als", "SA", "Ext2", "Pre", "Pre2", "PreD", "S?", "S[]", "E?", "D[]", "Last[]"]


def run():
    c = Check("C08", "a case is one document or byte string for a type holding structs with extensions (last, inherited, nested, in the middle, in arrays, optionals, variants): every "
              "subset of the members of each struct with extensions, every truncation of a full encoding; judged against the reference model; distinct by type shape and document")
    r, p = c.rng, Plan(c, build("vh"))

    def js(s, a, n, t, tree, how):
        for op in ("j2b", "j2r"):
            try: want = dyn.ref_bytes(a, t, tree, op == "j2b")
            except R.Unspec:
                s.add(None, op, 1, 1, n, R.jwrite(tree))
                c.note("unspecified_not_judged")
                continue
            c.count((n, op, R.jwrite(tree)), how + ("_refused" if want is None else "_accepted"))
            s.add(dyn.judge_bin(n + ":" + how, want), op, 1, 1, n, R.jwrite(tree))

    def bin(s, a, n, t, b, how):
        try: want = a.out(t, a.decode(t, b))
        except R.Reject: want = None
        except R.Unspec:
            s.add(None, "b2j", 1, 1, n, b)
            return
        c.count((n, b), how + ("_refused" if want is None else "_accepted"))
        s.add(dyn.judge_json(n + ":" + how, want), "b2j", 1, 1, n, b)

    for i in range(c.n(45, 1200)):
        a = make(r)
        s = p.script()
        dyn.setup(s, a)
        for n in NAMES:
            t = a.canon(n)
            for v in (a.gen(t, r, omit=0), a.gen(t, r, omit=1)):
                tree = a.spell(t, v, r)
                js(s, a, n, t, tree, "value")
                b = a.enc(t, v)
                for k in range(len(b) + 1) if len(b) < 90 else sorted(r.sample(range(len(b)), 60)): bin(s, a, n, t, b[:k], "truncated")
                bin(s, a, n, t, b + bytes([r.choice([0, 1, r.randrange(256)])]), "more")
            # subsets of the members of one object of a full value
            for omit in (0, 1):
                tree = a.spell(t, a.gen(t, r, omit=omit), r)
                objs = [q for q in dyn.positions(tree) if dyn.get(tree, q)[0] == "o"]
                for q in r.sample(objs, min(len(objs), 3)):
                    o = dyn.get(tree, q)[1]
                    subs = list(itertools.product([0, 1], repeat=len(o)))
                    for keep in subs if len(subs) <= 32 else r.sample(subs, 32) + [[1] * k + [0] * (len(o) - k) for k in range(len(o) + 1)]:
                        js(s, a, n, t, dyn.put(tree, q, ("o", [m for m, k in zip(o, keep) if k])), "subset")
                    if o:   # null is not an omission, and an unknown extra member is not an extension
                        k = r.randrange(len(o))
                        js(s, a, n, t, dyn.put(tree, q, ("o", o[:k] + [(o[k][0], ("n",))] + o[k + 1:])), "null")
            # members of several objects at once: trailing ones, so that extensions go
            for _ in range(4):
                js(s, a, n, t, trim(a.spell(t, a.gen(t, r, omit=r.choice([0, 1])), r), r), "trimmed")
            # corrupt one byte of a shortened encoding
            for _ in range(3): bin(s, a, n, t, dyn.mutate_bin(a.enc(t, a.gen(t, r, omit=.7)), r), "mutated")
        if i < 2: c.sample({"abi": a.d})
        if len(p.scripts) >= 300: p.run()
    for i in range(c.n(250, 5000)):
        a = R.gen_abi(r, extrate=.9)
        s = p.script()
        dyn.setup(s, a)
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 6)):
            v = a.gen(t, r, omit=.9)
            js(s, a, n, t, a.spell(t, v, r), "random")
            b = a.enc(t, v)
            bin(s, a, n, t, b, "random")
            for k in r.sample(range(len(b) + 1), min(len(b) + 1, 12)): bin(s, a, n, t, b[:k], "random-truncated")
        if len(p.scripts) >= 2000: p.run()
    p.run()
    return c.finish(1000)
