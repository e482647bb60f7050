"""Histories of calls on several contexts, checked call by call against a model of what each context holds."""
import copy
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from . import dyn

CONTRACTS = [0, 1, A.name_strict(b"eosio"), A.M64]
INVALID = ['', '{', '{}', 'null', '[]', '{"version":"x"}', '{"version":"eosio::abi/2.0"}', '{"version":"eosio::abi/1.1","types":[{"new_type_name":"a","type":"b"}]}',
           '{"version":"eosio::abi/1.1","structs":[{"name":"s","base":"s","fields":[]}]}', '{"version":"eosio::abi/1.1","structs":[{"name":"s","base":"","fields":[{"name":"a","type":"nope"}]}]}',
           '{"version":"eosio::abi/1.1","types":[{"new_type_name":"int8","type":"int8"}]}']


def damaged(a, r):
    """a definition that reads well and is refused only once its types are put together"""
    d = copy.deepcopy(a.d)
    n = "zz_bad"
    k = r.randrange(5)
    if k == 0: d["structs"].append({"name": n, "base": "", "fields": [{"name": "a", "type": r.choice(["nosuch", "int8??", "", "string$[]"])}]})
    elif k == 1: d["structs"].append({"name": n, "base": n, "fields": []})
    elif k == 2: d["types"].append({"new_type_name": n, "type": "nosuch"})
    elif k == 3: d["variants"].append({"name": n, "types": ["int8", "nosuch"]})
    else: d["types"].append({"new_type_name": n, "type": "uint8"}); d["structs"].append({"name": n, "base": "", "fields": []})
    return R.Abi(d)


def run():
    c = Check("C22", "a case is one call in a random history of 60 calls on 1-4 contexts (and on no context): loads, failed loads, conversions both ways, name and action lookups, reads of the "
              "last binary and of strings returned earlier; judged against a model of each context's state; distinct by (call, its arguments, state it depends on)")
    r, p = c.rng, Plan(c, build("vh"))
    pool = [R.gen_abi(r, size=r.choice([1, 2, 4])) for _ in range(c.n(240, 400))]

    def history():
        s = p.script()
        live = {}
        mine = r.sample(pool, 4)
        def ok(res): return None if res.ok else "should succeed, got %r" % res
        def bad(res): return None if res.err and res.f[0] else "should fail with a message, got %r" % res
        def is_(*w): return lambda res: None if res.ok and res.f[:len(w)] == list(w) else "should give %r, got %r" % (w, res)
        def bins(cx):
            # the allowed contents narrow to what was observed
            def j(res):
                if not res.ok or res.f[0] not in cx["cand"]: return "the binary result should be one of %r, got %r" % ([x.hex() for x in cx["cand"]], res)
                cx["cand"].intersection_update({res.f[0]})
            return j

        def add(judge, o, *a, state=None):
            if o not in ("ctx", "del", "forget"): c.count((o, a, state), "call_" + o)
            s.add(judge, o, *a)

        for _ in range(60):
            if not live or (len(live) < 4 and r.random() < .06):
                i = r.choice([x for x in range(1, 5) if x not in live])
                add(ok, "ctx", i)
                live[i] = {"abis": {}, "bins": [{"cand": {b""}}], "last": False}
                continue
            i = r.choice(list(live))
            x = live[i]
            k = r.random()
            if k < .02 and len(live) > 1:
                add(None, "del", i)
                del live[i]
                continue
            if k < .06:    # calls on no context
                o = r.choice([("abi", None, 1, mine[0].json()), ("abib", None, 1, mine[0].bin()), ("abih", None, 1, mine[0].bin().hex()), ("j2b", None, 1, "int8", "5"), ("j2r", None, 1, "int8", "5"),
                              ("b2j", None, 1, "int8", b"\5"), ("h2j", None, 1, "int8", "05"), ("act", None, 1, 1), ("tab", None, 1, 1), ("n2s", None, 5), ("hex", None)])
                add(bad, *o)
                add(lambda res: None if res.ok and res.f[0] else "no message for a null context", "err", None)
                add(is_(b"0"), "size", None)
                add(is_(b"1"), "isnull", None)
                add(None, "del", None)
                continue
            ct = r.choice(CONTRACTS)
            a = x["abis"].get(ct)
            if k < .2 or (not x["abis"] and k < .6):     # load; a contract once loaded is only loaded again with the same definition
                w = r.randrange(3)
                if r.random() < .3:
                    t = r.choice(INVALID)
                    if r.random() < .6:
                        n = damaged(r.choice(mine), r)
                        add(bad, *[("abi", i, ct, n.json()), ("abib", i, ct, n.bin()), ("abih", i, ct, n.bin().hex())][w])
                    elif w == 0: add(bad, "abi", i, ct, t)
                    elif w == 1: add(bad, "abib", i, ct, mine[0].bin()[:r.randrange(16)] if r.random() < .5 else t.encode())
                    else: add(bad, "abih", i, ct, r.choice(["0", "zz", mine[0].bin().hex()[:r.randrange(32)], ""]))
                    st = "invalid"
                else:
                    n = a or r.choice(mine)
                    add(ok, *[("abi", i, ct, n.json()), ("abib", i, ct, n.bin()), ("abih", i, ct, n.bin().hex())][w])
                    x["abis"][ct] = n
            elif k < .6:   # convert
                a = x["abis"].get(ct)
                src = a or r.choice(mine)
                ts = R.usable_types(src)
                n, t = r.choice(ts) if r.random() < .8 else (lambda q: (q, dyn.builtin_t(q)))(r.choice(R.BUILTINS))
                if n in ("extended_asset",): pass
                badtype = r.random() < .1
                if badtype: n = r.choice(["nope", "", n + "??", n + "[][]", "nope[]", "int9", n + " ", "nope?", "[]", "?"])
                v = src.gen(t, r)
                o = r.choice(["j2b", "j2r", "b2j", "h2j"])
                if o in ("j2b", "j2r"):
                    tree = src.spell(t, v, r)
                    if r.random() < .3: tree = dyn.mutate_tree(tree, r)[1]
                    try: want = dyn.ref_bytes(src, t, tree, o == "j2b") if a and not badtype else None
                    except R.Unspec: continue
                    j = dyn.judge_bin(o, want)
                    add(j, o, i, ct, n, R.jwrite(tree), state=(id(a), i))
                    if want is None:
                        x["bins"] = [{"cand": set(x["bins"][0]["cand"]) | {b""}}]
                        s.add(None, "forget", i)
                        x["last"] = False
                        add(lambda res: None if res.ok and res.f[0] else "no message after a failed call", "err", i)
                    else:
                        x["bins"] = [{"cand": {want}}]
                        x["last"] = True
                else:
                    b = src.enc(t, v)
                    if r.random() < .3: b = dyn.mutate_bin(b, r)
                    try: want = src.out(t, src.decode(t, b)) if a and not badtype else None
                    except R.Reject: want = None
                    except R.Unspec: continue
                    add(dyn.judge_json(o, want), o, i, ct, n, b.hex() if o == "h2j" else b, state=(id(a), i))
                    # the binary result stays the last JSON-to-binary conversion's
                    if want is None: s.add(None, "forget", i)
                    x["last"] = want is not None
            elif k < .7:   # read the last binary
                o = r.choice(["data", "size", "hex"])
                cx = x["bins"][0]
                if o == "data": add(bins(cx), "data", i, state=tuple(sorted(cx["cand"])))
                elif o == "size": add(lambda res, cx=cx: None if res.ok and int(res.f[0]) in {len(z) for z in cx["cand"]} else "size %r for one of %r" % (res, [z.hex() for z in cx["cand"]]), "size", i, state=tuple(sorted(cx["cand"])))
                else:
                    add(lambda res, cx=cx: None if res.ok and res.f[0] in {z.hex().upper().encode() for z in cx["cand"]} else "hex %r for one of %r" % (res, [z.hex() for z in cx["cand"]]), "hex", i, state=tuple(sorted(cx["cand"])))
                    x["last"] = True
            elif k < .78:
                v = R.SCALARS["name"].gen(r)
                if r.random() < .5:
                    add(is_(A.name_text(v).encode()), "n2s", i, str(v))
                    x["last"] = True
                else: add(is_(str(v).encode()), "s2n", i, A.name_text(v))
            elif k < .92:  # declared types of actions and tables
                kind, key = r.choice([("act", "actions"), ("tab", "tables")])
                decl = {}
                for e in (a.d[key] if a else []): decl.setdefault(A.name_json(e["name"].encode()), set()).add(e["type"])
                v = r.choice(list(decl)) if decl and r.random() < .7 else r.choice([0, r.getrandbits(64)])
                w = decl.get(v)
                add((lambda res, w=w: None if res.ok and res.f[0].decode() in w else "should be one of %r, got %r" % (w, res)) if w else bad, kind, i, ct, str(v), state=(id(a), i))
            else:
                add(lambda res: None if res.ok and res.f[0] in (b"same", b"none") else "a string returned earlier is now different", "peek", i, state=x["last"])
            for z, y in live.items():   # strings handed out by the other contexts are still there
                if z != i and y["last"] and r.random() < .25: add(is_(b"same"), "peek", z, state=("other", i))
            if live.get(i) and x["last"] and r.random() < .3: add(is_(b"same"), "peek", i, state="own")

    for h in range(c.n(2000, 10000)):
        history()
        if not h: c.sample({"history": p.scripts[0].lines[:8]})
        if len(p.scripts) >= 2000: p.run()
    c.note("histories", c.n(2000, 10000))
    p.run()
    return c.finish(1000)
