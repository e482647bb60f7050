"""The types of a loaded ABI, seen from C++: what get_type gives describes the definition, stays valid, and reads one value from a stream at a time."""
import copy, json
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from ref.abi import BadAbi, Reject, Unspec
from . import dyn
from .c07 import enrich


def desc(a, t, depth):
    k = t[0]
    if k == "b": return "b:" + t[1]
    if k in ("?", "[]", "$"): return k + "(" + desc(a, t[1], depth) + ")"
    ms = a.fields(t[1]) if k == "s" else a.alts(t[1])
    return k + ":" + t[1] + "{" + ("".join(n + "=" + desc(a, x, depth - 1) + "," for n, x in ms) if depth > 0 else str(len(ms))) + "}"


def run():
    c = Check("C34", "a case is one type name asked of a loaded ABI (defined, built-in, suffixed, unknown, wrongly nested; before and after others, before and after the ABI is moved), whose description through "
              "the accessors is compared with the definition; or one stream of several values read one after another, with the position after each; distinct by definition and name or data")
    r, p = c.rng, Plan(c, build("vht"), "vht")

    for i in range(c.n(500, 9000)):
        a0 = R.gen_abi(r)
        d = copy.deepcopy(a0.d)
        if r.random() < .7: enrich(r, d)
        a = R.Abi(d)
        try: a.validate()
        except BadAbi: continue
        s = p.script()
        js = json.dumps(d)
        ok = lambda what: lambda q: None if q.ok else (what, "%r" % q)
        slot = 1
        s.add(ok("load"), *(("tload", slot, a.json()) if r.random() < .5 else ("tloadb", slot, a.bin())))
        held = {}

        def ask(n, depth):
            try: t = a.canon(n)
            except BadAbi: t = None
            a.cache.pop(n, None)
            c.count((js, n, depth), "types asked for" if t else "names that are no type")
            if t is None:
                s.add(lambda q: None if q.err else ("no-type", "%r is no type, got %r" % (n, q)), "tdesc", slot, n, depth)
                return
            held.setdefault(n, t)
            want = desc(a, t, depth).encode()
            s.add(lambda q: None if q.ok and q.f[0] == want else ("description:" + t[0], "%r should be described as %r, got %r" % (n, want[:1500], q)), "tdesc", slot, n, depth)

        def again():
            depth = r.choice([0, 1, 2])
            l = sorted((n.encode(), desc(a, t, depth).encode()) for n, t in held.items())
            want = b"".join(n + b"=" + x + b";" for n, x in l)
            c.count((js, "again", tuple(held), depth), "types held, described again", len(l))
            s.add(lambda q: None if q.ok and q.f == ([want] if want else [b""]) else ("held", "the types held should be described as %r, got %r" % (want[:1500], q)), "tagain", slot, depth)

        def maps():
            side = lambda k: b"".join(b"%d=%s;" % (n, t.encode()) for n, t in sorted({A.name_json(x["name"].encode()): x["type"] for x in d[k]}.items()))
            want = [side("actions"), side("tables")]
            c.count((js, "maps"), "action and table lists")
            s.add(lambda q: None if q.ok and q.f == want else ("actions", "should be %r, got %r" % (want, q)), "tmaps", slot)

        defs = list(a.aliases) + list(a.structs) + list(a.variants)
        suf = ["?", "[]", "$", "[]$", "?$", "[]?", "?[]", "$?", "$[]", "$$", "[][]", "??", "x", " ", "[", "]", "[1]"]

        def names():
            n = r.choice(defs if r.random() < .75 else R.BUILTINS)
            k = r.random()
            if k < .35: return n
            if k < .85: return n + r.choice(suf[:5])
            return r.choice([n + r.choice(suf), n[:-1], "", "?", "[]", "$", "nosuch", "nosuch[]", n.upper(), n + "\0", r.choice(suf) + n])

        ts = [x for x in R.usable_types(a) + [(n, dyn.builtin_t(n)) for n in r.sample(R.BUILTINS, 4)] if dyn.dense(a, x[1])]
        # an empty encoding says nothing about positions, but is fine between others

        def stream():
            l = [r.choice(ts) for _ in range(r.choice([1, 2, 2, 3, 5]))]
            b = b"".join(a.enc(t, a.gen(t, r)) for _, t in l)
            if r.random() < .35: b = dyn.mutate_bin(b, r)
            elif r.random() < .3: b += r.randbytes(r.choice([1, 2, 9]))
            st, want = R.In(b), []
            try:
                for n, t in l:
                    try:
                        v = a.dec(t, st)
                        want.append((st.p, a.out(t, v)))
                    except Reject:
                        want.append(None)
                        break
            except (Unspec, R.Huge):
                c.note("unspecified_not_judged")
                want = "any"
            if want != "any": c.count((js, tuple(n for n, _ in l), b), "streams read to the end" if None not in want else "streams that fail on the way", len(want))

            def j(q):
                if want == "any": return None if not q.crash else ("crash", "%r" % q)
                if not q.ok: return ("stream", "%r" % q)
                got = q.f[0].decode().split(";")
                if got[-1] == "": got.pop()
                if len(got) != len(want): return ("stream:count", "values %r of %s should give %r, got %r" % ([n for n, _ in l], b.hex(), want, got))
                for (n, _), w, g in zip(l, want, got):
                    if w is None or g == "fail":
                        if not (w is None and g == "fail"): return ("stream:outcome", "value %s of %r in %s should give %r, got %r" % (n, l, b.hex(), w, g))
                        continue
                    pos, x = g.split(":")
                    if int(pos) != w[0]: return ("stream:position", "after value %s of %r in %s the position should be %d, is %s" % (n, [n for n, _ in l], b.hex(), w[0], pos))
                    try: t = R.jparse(bytes.fromhex(x))
                    except ValueError as e: return ("stream:json", "%s: %r" % (e, x))
                    df = R.jsame(w[1], t)
                    if df: return ("stream:json", "value %s in %s should give %s, got %r (%s)" % (n, b.hex(), R.jwrite(w[1]), bytes.fromhex(x), df))
            s.add(j, "tseq", slot, b, *[n for n, _ in l])

        def conv():
            n, t = r.choice(ts)
            v = a.gen(t, r)
            b = a.enc(t, v)
            c.count((js, n, b, "j"), "JSON conversions")
            s.add(lambda q: None if q.ok and q.f[0] == b else ("conversion", "should give %s, got %r" % (b.hex(), q)), "tjson", slot, n, R.jwrite(a.out(t, v)), r.choice([0, 1]))

        for k in range(r.choice([6, 12, 20])):
            x = r.random()
            if x < .5:
                n = names()
                for _ in range(r.choice([1, 1, 2, 3])): ask(n, r.choice([0, 1, 1, 2, 3]))
            elif x < .75 and ts: stream()
            elif x < .83 and ts: conv()
            elif x < .9: again()
            elif x < .94: maps()
            elif x < .97:
                s.add(ok("move"), "tmove", slot, slot + 1)
                slot += 1
                c.note("moved ABIs")
        for n in r.sample(defs, min(len(defs), 6)): ask(n, 2)
        again(); maps()
        if i < 3: c.sample({"abi": d, "asked": list(held)})
        if len(p.scripts) >= 700: p.run()
    p.run()
    return c.finish(5000)
