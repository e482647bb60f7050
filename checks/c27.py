"""State-history messages: native decoding, encoding and JSON against the published layout; the same layout loaded as an ABI; opaque payloads."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from ref.abi import Reject, Unspec
from ref import ship
from . import dyn


def judge(a, t, key, b):
    """what the published layout says about these bytes"""
    try: v = a.decode(t, b)
    except Reject: v = None
    if v is None: return lambda r: None if r.err and r.f[0] else (key + ":accepted", "should be rejected with a message, got %r" % r), "rejected"
    want = a.enc(t, v)
    json = key.split(":")[0] not in ship.NOJSON
    text = None
    if json:
        try: text = a.out(t, v)
        except Unspec: json = False
        except Reject: pass

    def j(r):
        if not r.ok: return (key + ":refused", "should be decoded, got %r" % r)
        if r.f[0] != want: return (key + ":bytes", "encodes as %s" % r.f[0].hex())
        if not json: return
        if text is None: return None if r.f[2] else (key + ":unknown-status", "an unknown status is printed: %r" % r.f[1])
        if r.f[2]: return (key + ":print-failed", "printing failed: %r" % r.f[2])
        try: got = R.jparse(r.f[1])
        except (ValueError, UnicodeDecodeError) as e: return (key + ":invalid-json", repr(r.f[1]))
        d = R.jsame(text, got)
        if d: return (key + ":json", "should give %s, got %r (%s)" % (R.jwrite(text), r.f[1], d))
    return j, "accepted"


def run():
    c = Check("C27", "a case is one byte string (an encoding by the published layout, one of its truncations, one with an unknown variant tag, or one with a random edit) decoded as one protocol type, "
              "or one opaque payload; what is decoded, re-encoded and printed is compared with the reference model of the layout")
    r, p, a = c.rng, Plan(c, build("vh")), ship.NATIVE
    dyn_def = ship.DYNAMIC
    total = c.n(45, 400)
    for n in ship.NAMES:
        t = a.canon(n)
        s = p.script()
        d = p.script()
        dyn.setup(d, dyn_def)
        deep = "transaction_trace" in n or n in ("signed_block_variant", "result", "signed_block_v1", "signed_block_v0")
        for i in range(total * (3 if deep else 1)):
            a.met = 0
            a.badtag = None
            v = a.gen(t, r, depth=r.choice([3, 6, 6, 9]), raw=True)
            b = a.enc(t, v)
            if len(b) > 20000: continue
            met = a.met
            j, k = judge(a, t, n, b)
            s.add(j, "shp", n, b)
            c.count((n, b), "whole " + k)
            # the same bytes through the layout loaded as an ABI, there and back
            if i % 3 == 0 and len(b) < 6000:
                td = dyn_def.canon(n)
                try: want = dyn_def.out(td, dyn_def.decode(td, b))
                except Unspec: want = None
                if want is not None:
                    d.add(dyn.judge_json(n + ":abi", want), "b2j", 1, 1, n, b)
                    if not dyn_def.lossy(td, dyn_def.decode(td, b)): d.add(dyn.judge_bin(n + ":abi", b), "j2b", 1, 1, n, R.jwrite(want, r))
                    c.count((n, b, "abi"), "through the ABI")
            # truncations
            cuts = range(len(b)) if len(b) < 60 else sorted(set(r.randrange(len(b)) for _ in range(40)) | {len(b) - 1, len(b) - 2})
            if i % 2 == 0 or c.thorough:
                for x in cuts:
                    s.add(lambda q, n=n: None if q.err and q.f[0] else (n + ":truncated", "a truncated message should be rejected, got %r" % q), "shp", n, b[:x])
                    c.count((n, b[:x]), "truncated")
            # unknown variant tags
            for x in r.sample(range(1, met + 1), min(met, 4)):
                for how in (lambda k: R.leb(k), lambda k: R.leb(r.choice([k + 1, 127, 128, 255, 1 << 16, 0xffffffff]))):
                    a.met, a.badtag, a.tag = 0, x, how
                    bad = a.enc(t, v)
                    s.add(lambda q, n=n: None if q.err and q.f[0] else (n + ":unknown-tag", "an unknown variant tag should be rejected, got %r" % q), "shp", n, bad)
                    c.count((n, bad), "unknown tag")
            # random edits, judged by the model
            for _ in range(c.n(6, 10)):
                m = dyn.mutate_bin(b, r)
                try: j, k = judge(a, t, n + ":edited", m)
                except Unspec: c.note("edits the properties leave open"); continue
                s.add(j, "shp", n, m)
                c.count((n, m), "edited " + k)
        if n == "transaction_trace": c.sample({"type": n, "bin": b.hex()[:400]})
        if len(p.scripts) > 60: p.run()
    p.run()
    # opaque payloads
    s = p.script()
    for i in range(c.n(6000, 100000)):
        n = r.choice(["transaction_trace[]", "table_delta[]", "uint64", "string", "string[]", "uint16[]", "action", "row[]", "action_trace", "bytes", "signed_block_variant", "varuint32"])
        t = a.canon(n)
        a.badtag = None
        a.met = 0
        w = a.enc(t, a.gen(t, r, depth=6, raw=True))
        if len(w) > 20000: continue
        k = r.random()
        if k < .25: w = w[:r.randrange(len(w) + 1)]
        elif k < .4 and n != "uint16[]": w = dyn.mutate_bin(w, r)  # (excess length bytes of raw arrays are left open)
        tail = r.choice([b"", b"\0", r.randbytes(3), w, w + w, a.enc(t, a.gen(t, r, depth=6))])
        st = R.In(w)
        try: want = a.enc(t, a.dec(t, st)); left = not st.end
        except Reject: want, left = None, False
        except Unspec: want, left = "?", False

        def j(q, n=n, w=w, tail=tail, want=want, left=left):
            if not q.ok: return (n + ":opaque", "the payload should be taken as it is: %r" % q)
            if q.f[0] != R.leb(len(w)) + w: return (n + ":opaque-bytes", "the payload's bytes changed: %s" % q.f[0].hex())
            if q.f[1] != tail: return (n + ":opaque-rest", "the stream after the payload is %s" % q.f[1].hex())
            if want == "?": return
            if want is None: return None if q.f[2][:1] == b"!" else (n + ":opaque-accepted", "the payload is no %s, got %r" % (n, q.f[2]))
            if left: return None if q.f[2] == b"left" else (n + ":opaque-left", "bytes are left in the payload, got %r" % q.f[2])
            if q.f[2] != b"=" + want: return (n + ":opaque-value", "the payload unpacks to %s" % q.f[2].hex())
        s.add(j, "opq", n, R.leb(len(w)) + w + tail)
        c.count((n, w, tail), "opaque payloads")
        if i % 3 == 0 and w:
            cut = (R.leb(len(w)) + w)[:r.randrange(len(R.leb(len(w)) + w))]
            s.add(lambda q, n=n: None if q.err and q.f[0] else (n + ":opaque-cut", "a payload cut short should be rejected, got %r" % q), "opq", n, cut)
            c.count((n, cut), "opaque payloads cut short")
        if i % 400 == 399: s = p.script()
        if len(p.scripts) > 60: p.run()
    s = p.script()
    for i, x in enumerate(ship.STATUS):
        s.add(lambda q, i=i, x=x: None if q.ok and q.f == [b"%d" % i, x.encode()] else ("status", "%r" % q), "shst", x.encode())
        c.count(("status", x), "status names")
        for bad in [x[:-1], x[1:], x + "x", x.upper(), " " + x, x + "\0", x.replace("_", "-"), "".join(reversed(x))] + \
                [x[:k] + y + x[k + 1:] for k in range(len(x)) for y in "_ael" if y != x[k]] + [x[:k] + x[k + 1:] for k in range(len(x))] + \
                [x[:k] + y[k:] for y in ship.STATUS for k in range(len(y))]:
            if bad in ship.STATUS: continue
            s.add(lambda q: None if q.err and q.f[0] else ("status-accepted", "an unknown status name should be rejected, got %r" % q), "shst", bad.encode())
            c.count(("status", bad), "status names")
    p.run()
    return c.finish(10000)
