"""One ABI loaded as JSON, as binary, as hex and re-exported: the contexts must be indistinguishable."""
import copy, json
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from . import dyn
from .c01 import hostile_json, hostile_bin

LETTERS = "abcdefghijklmnopqrstuvwxyz12345."


def enrich(r, d):
    """more of everything a definition can carry"""
    s = [x["name"] for x in d["structs"]]
    txt = lambda: r.choice(["", "plain", "é€\U0001f600", "line\nbreak\ttab", 'quote " back \\', "\u0001\u007f", "x" * r.choice([127, 128, 300, 5000])])
    nm = lambda: "".join(r.choice(LETTERS) for _ in range(r.choice([1, 3, 7, 11, 12]))).strip(".") or "a"
    d["actions"] = [{"name": nm(), "type": r.choice(s + ["nosuch", "", "uint8[]"]), "ricardian_contract": txt()} for _ in range(r.randrange(5))]
    d["tables"] = [{"name": nm(), "index_type": r.choice(["i64", "i256", "", "é"]), "key_names": [txt() for _ in range(r.randrange(4))], "key_types": ["uint64"] * r.randrange(4), "type": r.choice(s)} for _ in range(r.randrange(5))]
    d["ricardian_clauses"] = [{"id": txt(), "body": txt()} for _ in range(r.randrange(3))]
    d["error_messages"] = [{"error_code": r.choice([0, 1, 2**53 + 1, 2**63, 2**64 - 1, r.getrandbits(64)]), "error_msg": txt()} for _ in range(r.randrange(3))]
    # aliases of aliases, as alternatives, members and bases
    if r.random() < .4:
        used = {x[k] for w, k in (("types", "new_type_name"), ("structs", "name"), ("variants", "name")) for x in d[w]}
        a, b = R.ident(r, used), R.ident(r, used)
        d["types"] += [{"new_type_name": a, "type": r.choice(s + ["string", "asset", "extended_asset"])}, {"new_type_name": b, "type": a}]
        n = R.ident(r, used)
        d["variants"].append({"name": n, "types": [b, a + "[]", b + "?", "uint8", a]})
        d["structs"].append({"name": R.ident(r, used), "base": b if d["types"][-2]["type"] in s + ["extended_asset"] and r.random() < .5 else "", "fields": [{"name": "m" + n, "type": n}, {"name": "o" + n, "type": b + "?"}]})


def json_form(r, d):
    """the same definition, differently written: members reordered, empty ones omitted, unknown ones added"""
    def w(x, top=False):
        if isinstance(x, list): return [w(y) for y in x]
        if not isinstance(x, dict): return x
        l = [(k, w(v)) for k, v in x.items() if not (v in ("", []) and r.random() < .5)]
        if r.random() < .15: l.append(("comment" + str(r.randrange(99)), r.choice(["x", [1, {"a": []}], {"deep": [[["y"]]]}, None, True, 5])))
        r.shuffle(l)
        return dict(l)
    return json.dumps(w(d), ensure_ascii=r.random() < .5, indent=r.choice([None, None, 1]))


def run():
    c = Check("C07", "a case is one operation (conversion either way of valid or damaged data, action or table lookup) performed on contexts that loaded one definition as JSON, binary, hex and "
              "differently written JSON, whose outcomes must be identical, and on one that loaded the exported definition, whose conversions must be identical; or one definition carried "
              "through its binary form; distinct by definition and operation")
    r, p = c.rng, Plan(c, build("vh"))
    for i in range(c.n(700, 12000)):
        a0 = R.gen_abi(r)
        d = copy.deepcopy(a0.d)
        if r.random() < .7: enrich(r, d)
        a = R.Abi(d)
        try: a.validate()
        except R.BadAbi: continue
        s = p.script()
        ok = lambda what: lambda q: None if q.ok else (what, "%r" % q)
        ext = [(r.getrandbits(16), r.randbytes(r.choice([0, 1, 5, 200]))) for _ in range(r.randrange(1, 3))] if r.random() < .2 else []
        ways = [("json", "abi", a.json()), ("bin", "abib", a.bin(ext)), ("hex", "abih", a.bin().hex()), ("rewritten json", "abi", json_form(r, d)), ("exported", "axl", a.json())]
        order = ways[:]
        r.shuffle(order)
        for k, (w, o, data) in enumerate(order):
            s.add(ok("context"), "ctx", k)
            s.add(ok("load:" + w), o, k, 1, data)
        # the definition itself
        b = a.bin()
        c.count((b, "adef"), "definitions", 3)
        eqb = lambda what, b: lambda q: None if q.ok and q.f[0] == b else ("definition:" + what, "should have the binary form %s, got %r" % (b.hex(), q))
        s.add(eqb("json-to-binary", b), "adef", a.json())
        s.add(eqb("rewritten-json-to-binary", b), "adef", json_form(r, d))
        s.add(eqb("binary-round-trip", a.bin(ext)), "adefb", a.bin(ext))

        def every(what, name, args):
            """the operation on every context"""
            got = {}
            def j(k, w):
                def jj(q):
                    got[w] = q
                    if len(got) < len(todo): return None
                    sig = lambda q: (q.kind, q.f)
                    base = got["json"]
                    for x, q in got.items():
                        if x == "exported":
                            if name in ("act", "tab"): continue
                            same = q.kind == base.kind and (q.err or q.f == base.f)
                        else: same = sig(q) == sig(base)
                        if not same: return (what + ":" + x, "loaded as %s: %r; loaded as json: %r" % (x, q, base))
                return jj
            todo = [(k, w) for k, (w, _, _) in enumerate(order)]
            c.count((json.dumps(d), name, args), what)
            for k, w in todo: s.add(j(k, w), name, k, 1, *args)

        ts = R.usable_types(a) + [(n, dyn.builtin_t(n)) for n in r.sample(R.BUILTINS, 2)]
        ts = [x for x in ts if dyn.dense(a, x[1])]
        for n, t in r.sample(ts, min(len(ts), 8)):
            for _ in range(2):
                v = a.gen(t, r)
                tree, b = a.out(t, v), a.enc(t, v)
                every("binary to JSON", "b2j", (n, b))
                every("JSON to binary", r.choice(["j2b", "j2r"]), (n, R.jwrite(tree)))
                m = dyn.mutate_tree(tree, r)[1]
                every("damaged JSON", r.choice(["j2b", "j2r"]), (n, R.jwrite(m)))
                every("damaged binary", "b2j", (n, dyn.mutate_bin(b, r)))
        for n in [r.choice(ts)[0] + r.choice(["[]", "?", "$", "x", "[]?", "$?"]) for _ in range(3)]: every("type names", "b2j", (n, r.randbytes(r.randrange(3))))
        for key, o in (("actions", "act"), ("tables", "tab")):
            for x in d[key]: every("lookups", o, (str(A.name_json(x["name"].encode())),))
            for v in (0, r.getrandbits(64)): every("lookups", o, (str(v),))
            for other in d["actions"][:1] + d["tables"][:1]: every("lookups", o, (str(A.name_json(other["name"].encode())),))
        if i < 3: c.sample({"abi": d, "loaded as": [w for w, _, _ in order]})
        if len(p.scripts) >= 700: p.run()
    p.run()
    return c.finish(5000)
