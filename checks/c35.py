"""Allocation failures at every point of a call: the call fails (or gives its ordinary result), and everything after is as if it had not been made."""
import copy, json
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A, ship
from ref.abi import BadAbi, Reject, Unspec
from . import dyn
from .c07 import enrich


def longer(r, d):
    """some of the names too long to be stored without an allocation"""
    m = {x[k]: x[k] + "_" + "long" * r.choice([3, 5, 9]) for l, k in (("types", "new_type_name"), ("structs", "name"), ("variants", "name")) for x in d[l] if r.random() < .5}
    def t(x):
        n = x.rstrip("?[]$")
        return m.get(n, n) + x[len(n):]
    for x in d["types"]: x["new_type_name"], x["type"] = t(x["new_type_name"]), t(x["type"])
    for x in d["structs"]:
        x["name"], x["base"] = t(x["name"]), t(x["base"])
        for f in x["fields"]:
            f["type"] = t(f["type"])
            if r.random() < .2: f["name"] += "_of_some_length"
    for x in d["variants"]: x["name"], x["types"] = t(x["name"]), [t(y) for y in x["types"]]
    for k in ("actions", "tables"):
        for x in d[k]: x["type"] = t(x["type"])


def run():
    c = Check("C35", "a case is one run of one call with the allocation failing at one point of it, or from that point on, after which the same call is repeated undisturbed and compared with its first result; "
              "calls of the C interface (loading in three forms, conversions of valid and damaged data, lookups) and conversions of C++ values into objects used before; distinct by call")
    r, p = c.rng, Plan(c, build("vhf"), "vhf")
    most = c.n(150, 600)

    def tally(what, key):
        def t(q, i):
            pts, runs, failed, ok = (int(x) for x in q.f[i].decode().split()[:4])
            c.count(key, what, max(runs, 1))
            c.note("points of allocation", pts)
            c.note("calls that failed for lack of memory", failed)
            c.note("calls that gave their result all the same", ok)
        return t

    def call(s, what, key, want, n, *a):
        """want: a predicate on the undisturbed outcome (None: failure)"""
        t = tally(what, key)
        def j(q):
            if not q.ok: return (what, "%r" % q)
            t(q, 1)
            failed = len(q.f) > 2 and q.f[2] == b"f"
            if want is None: return None if failed else (what + ":accepted", "should fail, got %r" % q)
            if want == "any": return None
            return None if not failed and want(q.f[0]) else (what + ":result", "undisturbed it gives %r" % q)
        s.add(j, n, *a)

    def isjson(tree):
        def w(x):
            try: return R.jsame(tree, R.jparse(x)) is None
            except ValueError: return False
        return w

    for i in range(c.n(120, 900)):
        a0 = R.gen_abi(r, size=r.choice([1, 2, 3]))
        d = copy.deepcopy(a0.d)
        if r.random() < .6:
            enrich(r, d)
            for k in ("ricardian_clauses",): d[k] = d[k][:1]
        if r.random() < .6: longer(r, d)
        a = R.Abi(d)
        try: a.validate()
        except BadAbi: continue
        js, b = a.json(), a.bin()
        s = p.script()
        ok = lambda what: lambda q: None if q.ok else (what, "%r" % q)
        s.add(ok("create"), "fctx", 1)
        for how, data in r.sample([("json", js), ("bin", b), ("hex", b.hex())], 2):
            t = tally("loading:" + how, (js, how))
            s.add(lambda q, t=t: (t(q, 1), None)[1] if q.ok else ("load", "%r" % q), "fload", 1, r.choice([1, 1 << 40]) , how, data, most)
        # a loaded contract to work with
        s.add(lambda q: None if q.ok else ("load", "%r" % q), "fload", 1, 500, "json", js, 0)
        n = 100500
        ts = [x for x in R.usable_types(a) if dyn.dense(a, x[1])]
        for name, t in r.sample(ts, min(len(ts), 4)):
            v = a.gen(t, r)
            tree, e = a.out(t, v), a.enc(t, v)
            if len(e) > 4000: continue
            key = (js, name, e)
            call(s, "JSON to binary", key, lambda x, e=e: x == e, "fcall", 1, n, r.choice(["j2b", "j2r"]), name, R.jwrite(tree), most)
            call(s, "hex of the result", key + (1,), lambda x, e=e: x == e.hex().upper().encode(), "fcall", 1, n, "hex", "", "", most)
            call(s, "binary to JSON", key + (2,), isjson(tree), "fcall", 1, n, "b2j", name, e, most)
            call(s, "hex to JSON", key + (3,), isjson(tree), "fcall", 1, n, "h2j", name, e.hex(), most)
            call(s, "damaged JSON", key + (4,), "any", "fcall", 1, n, r.choice(["j2b", "j2r"]), name, R.jwrite(dyn.mutate_tree(tree, r)[1]), most)
            if e: call(s, "truncated binary", key + (5,), "any", "fcall", 1, n, "b2j", name, e[:r.randrange(len(e))], most)
        # on contexts that have done nothing else
        fresh = [x for x in ts if x[1][0] in ("?", "[]")] or ts
        for k in ("j2b", "j2r", "b2j", "h2j", "hex"):
            if r.random() < .6 or not fresh: continue
            name, t = r.choice(fresh)
            if r.random() < .15: name, t = r.choice([("string[]", ("[]", ("b", "string"))), ("bytes?", ("?", ("b", "bytes"))), ("uint64[]$", ("[]", ("b", "uint64")))])
            v = a.gen(t, r)
            tree, e = a.out(t, v), a.enc(t, v)
            if len(e) > 1500: continue
            if not a.canon(name): continue
            w = isjson(tree) if k in ("b2j", "h2j") else (lambda x, e=e: x == e) if k != "hex" else (lambda x, e=e: x == e.hex().upper().encode())
            call(s, "first call of a context", (js, name, e, k), w, "ffresh", js, k, name, {"b2j": e, "h2j": e.hex()}.get(k, R.jwrite(tree)), c.n(40, 200))
        call(s, "unknown type", (js, "unknown"), None, "fcall", 1, n, r.choice(["j2b", "j2r", "b2j"]), "a_type_with_a_name_that_is_not_short", "1", most)
        call(s, "unknown contract", (js, "contract"), None, "fcall", 1, 77, r.choice(["j2b", "j2r", "b2j", "h2j"]), "uint8", "01", most)
        call(s, "names", (js, "n2s"), "any", "fcall", 1, n, "n2s", "", str(r.getrandbits(64)), most)
        for key, o in (("actions", "act"), ("tables", "tab")):
            for x in d[key][:1]:
                v = A.name_json(x["name"].encode())
                t = {A.name_json(y["name"].encode()): y["type"] for y in d[key]}[v].encode()
                call(s, "lookups", (js, o), lambda x, t=t: x == t, "fcall", 1, n, o, "", str(v), most)
            call(s, "lookups that fail", (js, o, "no"), None, "fcall", 1, n, o, "", "5", most)
        # C++ values
        call(s, "C++: abi_def from binary", b, lambda x, b=b: x == b, "fnat", "abi_def/bin", b, most)
        call(s, "C++: abi_def from JSON", js, lambda x, b=b: x == b, "fnat", "abi_def/json", js, most)
        call(s, "C++: abi_def from truncated binary", (b, 1), "any", "fnat", "abi_def/bin", b[:r.randrange(len(b))], most)
        m = ship.NATIVE
        for name, what in (("result", "ship_result/bin"), ("request", "ship_request/bin"), ("request", "ship_request/json"), ("transaction_trace", "ship_trace/bin"), ("signed_block_variant", "ship_block/bin"),
                           ("table_delta", "ship_delta/bin"), ("transaction", "ship_transaction/bin"), ("transaction", "ship_transaction/json")):
            t = m.canon(name)
            v = m.gen(t, r, depth=5, raw=True)
            e = m.enc(t, v)
            if len(e) < 4000: call(s, "C++: state history", (what, e), "any", "fnat", what, e, most)
        for kind in ("public_key", "private_key", "signature"):
            k = R.SCALARS[kind]
            text = R.text_of(k.out(k.gen(r)))
            call(s, "C++: " + kind, (kind, text), "any", "fnat", kind + "/text", text, most)
            call(s, "C++: damaged " + kind, (kind, text, 1), "any", "fnat", kind + "/text", text[:r.randrange(len(text))], most)
        if i < 3: c.sample({"abi": d})
    p.run(leaks=True)
    return c.finish(20000)
