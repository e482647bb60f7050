"""ABI admission: exactly the well-formed definitions load, by each loading path; a refused one changes nothing."""
import copy, json
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from ref.abi import BadAbi, Reject, Unspec
from . import dyn

GOOD = {"version": "eosio::abi/1.1", "types": [], "structs": [{"name": "keep", "base": "", "fields": [{"name": "k", "type": "uint32"}]}],
        "actions": [{"name": "keepact", "type": "keep", "ricardian_contract": ""}], "tables": [], "ricardian_clauses": [], "error_messages": [], "abi_extensions": [], "variants": []}
# names no definition may take
TAKEN = R.BUILTINS


def slots(d):
    """every place where a type name is used: (container, key, kind)"""
    o = [(t, "type", "alias") for t in d["types"]]
    for s in d["structs"]: o += [(f, "type", "field") for f in s["fields"]]
    for v in d["variants"]: o += [(v["types"], i, "alternative") for i in range(len(v["types"]))]
    return o


def defs(d): return [("types", t, "new_type_name") for t in d["types"]] + [("structs", s, "name") for s in d["structs"]] + [("variants", v, "name") for v in d["variants"]]


def fresh(r, d):
    used = {x[k] for _, x, k in defs(d)}
    return R.ident(r, used)


def anytype(r, d, kinds=None):
    l = [x[k] for w, x, k in defs(d) if kinds is None or w in kinds]
    return r.choice(l) if l and (kinds or r.random() < .6) else r.choice(R.BUILTINS) if not kinds else None


def put_type(r, d, t):
    """uses type expression t somewhere"""
    k = r.random()
    if k < .6 and d["structs"]: r.choice(d["structs"])["fields"].insert(0, {"name": fresh(r, d), "type": t})
    elif k < .8 and d["variants"]: v = r.choice(d["variants"]); v["types"].insert(r.randrange(len(v["types"]) + 1), t)
    else: d["types"].append({"new_type_name": fresh(r, d), "type": t})


def edit(r, d):
    """one edit, well-formed or not; returns its name"""
    k = r.randrange(24)
    if k == 0:  # unknown type
        s = slots(d)
        if not s: return None
        c, key, kind = r.choice(s)
        t = c[key]
        c[key] = r.choice([t + "x", t[:-1], t.upper() if t.upper() != t else t + "_", " " + t, t + " ", "", t + "[ ]", "[]" + t, t + "[1]", t + "]", t + "[", "?", "[]", "$", "?" + t, t.replace("[]", "") + "[]x", "void", "auto", "uint256", "int", "nosuch"])
        return "near-name-" + kind
    if k == 1:
        if len(defs(d)) < 2: return None
        (_, x, kx), (_, y, ky) = r.sample(defs(d), 2)
        x[kx] = y[ky]
        return "defined-twice"
    if k == 2:
        if not defs(d): return None
        w, x, key = r.choice(defs(d))
        x[key] = r.choice(TAKEN)
        return "builtin-redefined-" + w
    if k == 3:
        if not defs(d): return None
        w, x, key = r.choice(defs(d))
        x[key] = ""
        return "unnamed-" + w
    if k == 4:
        if not d["structs"]: return None
        r.choice(d["structs"])["base"] = r.choice([anytype(r, d, ["variants"]) or "string", anytype(r, d), anytype(r, d) + "[]", anytype(r, d) + "?", anytype(r, d) + "$", "nosuch", "extended_asset", anytype(r, d, ["types"]) or "asset", anytype(r, d, ["structs"])])
        return "some-base"
    if k in (5, 6):  # stacked suffixes, directly or through aliases
        t = anytype(r, d)
        for _ in range(r.choice([1, 2, 2, 2, 3])):
            t += r.choice(["?", "[]", "[]", "$"])
            if r.random() < .4 and not t.endswith("$"):
                n = fresh(r, d)
                d["types"].append({"new_type_name": n, "type": t})
                t = n
        put_type(r, d, t)
        return "stacked"
    if k == 7:
        d["types"].append({"new_type_name": fresh(r, d), "type": anytype(r, d) + r.choice(["$", "?$", "[]$"])})
        return "alias-of-extension"
    if k == 8:  # alias cycle
        n = [fresh(r, d) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if len(set(n)) != len(n): return None
        l = [{"new_type_name": x, "type": n[(i + 1) % len(n)] + (r.choice(["", "", "", "?", "[]"]))} for i, x in enumerate(n)]
        d["types"] += l
        return "alias-cycle"
    if k == 9:  # base cycle
        n = [fresh(r, d) for _ in range(r.choice([1, 1, 2, 3, 4]))]
        if len(set(n)) != len(n): return None
        d["structs"] += [{"name": x, "base": n[(i + 1) % len(n)], "fields": [{"name": "a", "type": "uint8"}] * r.randrange(2)} for i, x in enumerate(n)]
        return "base-cycle"
    if k == 10:
        d["version"] = r.choice(["", "eosio::abi/2.0", "eosio::abi/1", "eosio::abi", "EOSIO::abi/1.0", " eosio::abi/1.0", "eosio::abi/11.0", "eosio::abi/0.9", "eosio:abi/1.0", "eosio::abi/-1.0", "eosio::abj/1.0", "eosio::abi/1,0",
                                 "eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.2", "eosio::abi/1.3", "eosio::abi/1.9", "abi/1.0", "eosio::abi/1", "eosio::abi/1\0.0", "eosio::abi/ 1.0", "fosio::abi/1.0"])
        return "version"
    # harmless ones
    if k == 11:  # alias chain
        t = anytype(r, d)
        for _ in range(r.randrange(1, 9)):
            n = fresh(r, d)
            d["types"].append({"new_type_name": n, "type": t})
            t = n
        put_type(r, d, t + r.choice(["", "?", "[]"]) if True else t)
        return "alias-chain"
    if k == 12:  # base chain, sometimes through aliases
        t = r.choice(["", "", anytype(r, d, ["structs"]) or "", "extended_asset"])
        for i in range(r.randrange(1, 8)):
            n = fresh(r, d)
            d["structs"].append({"name": n, "base": t, "fields": [{"name": "f%s%d" % (n[:1], i), "type": anytype(r, d)}] * r.randrange(2)})
            t = n
            if r.random() < .2:
                n = fresh(r, d)
                d["types"].append({"new_type_name": n, "type": t})
                t = n
        return "base-chain"
    if k == 13:
        n = fresh(r, d)
        d["structs"].append({"name": n, "base": "", "fields": [{"name": "self", "type": n + r.choice(["", "?", "[]", "$", "?$", "[]$"])}]})
        return "self-reference"
    if k == 14:
        d["variants"].append({"name": fresh(r, d), "types": []})
        return "empty-variant"
    if k == 15:
        d["structs"].append({"name": fresh(r, d), "base": "", "fields": []})
        return "empty-struct"
    if k == 16:
        n = fresh(r, d)
        d["variants"].append({"name": n, "types": [n, n + "[]", anytype(r, d), anytype(r, d)]})
        return "self-variant"
    if k == 17:
        d["actions"].append({"name": "act", "type": "nosuchtype", "ricardian_contract": ""})
        return "action-of-unknown-type"
    if k == 18:
        n = r.choice(["uint8x", "int", "Name", "bool_", "assets", "extended_assets", "uint88", "string ", " string", "name.", "float", "bytes32"])
        if n not in {x[k2] for _, x, k2 in defs(d)}: d[r.choice(["types"])].append({"new_type_name": n, "type": r.choice(R.BUILTINS)}); put_type(r, d, n)
        return "like-a-builtin"
    if k == 19:
        if not d["structs"]: return None
        f = r.choice(d["structs"])["fields"]
        if f: f.append(dict(r.choice(f)))
        return "repeated-member"
    if k == 20:
        if not d["variants"]: return None
        v = r.choice(d["variants"])["types"]
        if v: v.append(r.choice(v))
        return "repeated-alternative"
    if k == 21:
        for key in ("types", "structs", "variants"): r.shuffle(d[key])
        return "reordered"
    if k == 22:
        put_type(r, d, anytype(r, d) + r.choice(["?$", "[]$", "$", "?", "[]"]))
        return "suffixed"
    d["structs"].append({"name": fresh(r, d), "base": "", "fields": [{"name": "", "type": anytype(r, d)}]})
    return "unnamed-member"


def run():
    c = Check("C06", "a case is one ABI definition (a random well-formed one, with zero to three random edits, harmful or not) offered by one of the three loading paths to a context that holds another "
              "contract; accepted exactly when an independent validator accepts it; distinct by definition and path")
    r, p = c.rng, Plan(c, build("vh"))
    verdicts = {}
    KEEP = "010203ff"

    def path(s, way, ctx, con, a, judge):
        if way == "json": s.add(judge, "abi", ctx, con, a.json())
        elif way == "bin": s.add(judge, "abib", ctx, con, a.bin())
        else: s.add(judge, "abih", ctx, con, a.bin().hex() if r.random() < .5 else a.bin().hex().upper())

    def intact(s):
        s.add(lambda q: None if q.ok and R.jsame(("o", [(b"k", R.T("4278387201", True))]), R.jparse(q.f[0])) is None else ("loaded-contract-changed", "the contract loaded before gives %r" % q), "b2j", 1, 1, "keep", bytes.fromhex(KEEP))
        s.add(lambda q: None if q.ok and q.f[0] == b"keep" else ("loaded-contract-changed", "the action of the contract loaded before gives %r" % q), "act", 1, 1, A.name_json(b"keepact"))

    total = c.n(9000, 150000)
    done = 0
    while done < total:
        a0 = R.gen_abi(r, size=r.choice([1, 2, 3, 4]))
        d = copy.deepcopy(a0.d)
        edits = []
        for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3])):
            e = edit(r, d)
            if e: edits.append(e)
        if r.random() < .5:
            for key in ("types", "structs", "variants"): r.shuffle(d[key])
        a = R.Abi(d)
        try: a.validate(); good = True
        except BadAbi as e: good = False; why = str(e)
        if good and d["version"] == "eosio::abi/1.": continue
        name = ("good:" if good else "bad:") + ("+".join(sorted(edits)) or "plain")
        done += 1
        s = p.script()
        s.add(lambda q: None if q.ok else ("ctx", "%r" % q), "ctx", 1)
        s.add(lambda q: None if q.ok else ("load", "%r" % q), "abi", 1, 1, json.dumps(GOOD))
        for way in r.sample(["json", "bin", "hex"], 3 if r.random() < .3 else 1):
            con = 1 if not good and r.random() < .3 else 2 + ["json", "bin", "hex"].index(way)  # (a refused definition may be offered for the contract that is loaded)
            if good: j = lambda q, name=name: None if q.ok else (name + ":refused", "a well-formed ABI was refused: %r" % q)
            else: j = lambda q, name=name, why=why: None if q.err and q.f[0] else (name + ":accepted", "a malformed ABI (%s) was accepted: %r" % (why, q))
            path(s, way, 1, con, a, j)
            c.count((json.dumps(d), way), "accepted" if good else "refused")
            for e in edits: c.note(("with " if good else "refused with ") + e)
            intact(s)
            if not good and con != 1:
                s.add(lambda q, name=name: None if q.err else (name + ":loaded", "a refused ABI was loaded: %r" % q), "b2j", 1, con, "uint8", b"\1")
            if good:
                ts = [x for x in R.usable_types(a) if a.depth(x[1]) is not None]
                for n, t in r.sample(ts, min(2, len(ts))):
                    try:
                        v = a.gen(t, r, depth=4)
                        b = a.enc(t, v)
                        if len(b) > 4000: continue
                        v2 = a.decode(t, b)  # members after an omitted extension and the like
                        want = a.out(t, v2)
                    except (Unspec, Reject, RecursionError): continue
                    names = [R.jwrite(want)]
                    s.add(dyn.judge_json("use", want), "b2j", 1, con, n, b)
                    c.note("conversions with accepted ABIs")
        if done < 5: c.sample({"edits": edits, "accepted": good, "abi": d})
        if len(p.scripts) >= 1500: p.run()
    # damaged documents: every cut of the binary form, random cuts of the JSON form and of the hex form
    for i in range(c.n(60, 600)):
        a = R.gen_abi(r, size=2)
        b = a.bin()
        tail = len(b) - len(R.leb(len(a.d["variants"])) + b"".join(R.leb(len(v["name"].encode())) + v["name"].encode() + R.leb(len(v["types"])) + b"".join(R.leb(len(t.encode())) + t.encode() for t in v["types"]) for v in a.d["variants"]))
        s = p.script()
        s.add(None, "ctx", 1)
        s.add(lambda q: None if q.ok else ("load", "%r" % q), "abi", 1, 1, json.dumps(GOOD))
        for x in (range(len(b)) if len(b) < 400 else sorted(r.sample(range(len(b)), 300))):
            if x == tail: continue  # (variants may be absent)
            s.add(lambda q, x=x: None if q.err and q.f[0] else ("cut-binary", "a binary ABI cut at %d was accepted" % x), "abib", 1, 2, b[:x])
            c.count((b[:x],), "cut short")
        j = a.json()
        for x in sorted(r.sample(range(len(j)), min(len(j), 100))):
            s.add(lambda q, x=x: None if q.err and q.f[0] else ("cut-json", "a JSON ABI cut at %d was accepted" % x), "abi", 1, 2, j[:x])
            c.count((j[:x],), "cut short")
        h = b.hex()
        for x in range(10):
            y = r.randrange(len(h))
            bad = r.choice([h[:y] + r.choice("gGxX -\"") + h[y + 1:], h[:y | 1]])
            s.add(lambda q: None if q.err and q.f[0] else ("bad-hex", "bad hex was accepted"), "abih", 1, 2, bad)
            c.count((bad,), "bad hex")
        intact(s)
        s.add(lambda q: None if q.err else ("cut:loaded", "a refused ABI was loaded"), "b2j", 1, 2, "uint8", b"\1")
        if len(p.scripts) >= 100: p.run()
    p.run()
    return c.finish(5000)
