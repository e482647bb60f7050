"""Whatever the value, the output is valid UTF-8 JSON denoting exactly it; string input means what JSON says it means."""
import json
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from . import dyn
from .scal import Run

PIECES = [b'"', b"\\", b"/", b"\0", b"\x01", b"\x08", b"\t", b"\n", b"\r", b"\x1f", b" ", b"\x7f", b"a", b"\xc2\x80", b"\xdf\xbf", b"\xe0\xa0\x80", b"\xed\x9f\xbf", b"\xee\x80\x80",
          b"\xef\xbf\xbf", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xe2\x80\xa8", b"\xef\xbb\xbf",
          # malformed: stray and missing continuations, overlong forms, surrogates, beyond U+10FFFF
          b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xdf", b"\xe0\x9f\xbf", b"\xe0\xa0", b"\xe0", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xef\xbf", b"\xf0\x8f\xbf\xbf",
          b"\xf0\x90\x80", b"\xf0\x90", b"\xf0", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xff", b"\xc2a", b"\xe2\x82a", b"\xf0\x9f\x98a", b"\xe2\xc2\x80"]


def run():
    c = Check("C21", "a case is one byte string printed (every single byte, every two-byte string over the edge bytes, all pairs of well- and ill-formed sequences, random) or one JSON "
              "string parsed (every escape, every code point class), or a document printed compact and indented; parsed by an independent JSON parser; distinct by form and text")
    r, p = c.rng, Plan(c, build("vh"))
    x = Run(c, p)

    def shown(b, how):
        """judge for JSON texts that must denote the string b, malformed bytes replaced"""
        want = R.T(A.utf8_repair(b))
        def j(res):
            if not res.ok: return (how, "printing refused: %r" % res)
            for t in res.f:
                try: got = R.jparse(t)
                except (ValueError, UnicodeDecodeError) as e: return (how + ":invalid", "%r is not UTF-8 JSON: %s" % (t, e))
                if got[0] == "a":
                    if len(got[1]) != 1: return (how + ":array", repr(t))
                    got = got[1][0]
                if R.jsame(want, got): return (how + ":text", "%r should be printed as %s, got %r" % (b, R.jwrite(want), t))
        return j

    def printed(b):
        c.count(("p", b), "strings_printed")
        k = r.randrange(3)
        x.add(shown(b, "jstr"), "jstr", b)
        if k == 0: x.add(shown(b, "b2j"), "b2j", 1, 1, "string", R.leb(len(b)) + b)
        if k == 1: x.add(lambda res, j=shown(b, "nb"): j(type(res)(res.kind, res.f[1:])) if res.ok and res.f[0] == R.leb(len(b)) + b else ("nb", repr(res)), "nb", "string", R.leb(len(b)) + b)
        if k == 2: x.add(lambda res, j=shown(b, "jvec"): j(type(res)(res.kind, res.f[:2])), "jvec", b)

    for i in range(256): printed(bytes([i]))
    edge = [0, 0x1f, 0x20, 0x22, 0x5c, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
    for i in edge:
        for j in edge: printed(bytes([i, j]))
    for a in PIECES:
        for b in PIECES: printed(a + b)
        printed(b"x" * r.randrange(5) + a + b"y")
        for n in range(1, 9): printed(b"z" * n + a); printed(a * n)
    hi = [x for x in edge if x >= 0x80]
    for i in hi if c.thorough else [0xe0, 0xed, 0xef, 0xf0, 0xf4]:
        for j in hi:
            for k in hi:
                printed(bytes([i, j, k]))
                if i >= 0xf0: printed(bytes([i, j, k, r.choice(hi)]))
    for _ in range(c.n(10000, 60000)):
        printed(b"".join(r.choice(PIECES) for _ in range(r.randrange(12))) if r.random() < .7 else R.SCALARS["string"].gen_raw(r))

    # input: legal escapes, lower and upper case hex, surrogate pairs; also as member names and variant tags
    def parsed(text, b):
        c.count(("i", text), "strings_parsed")
        w = R.leb(len(b)) + b
        j = dyn.judge_bin("string:parse", w)
        x.add(lambda res: j(type(res)(res.kind, res.f[:1])), "nj", "string", text)
        x.add(j, r.choice(["j2b", "j2r"]), 1, 1, "string", text)

    cps = sorted({i for i in range(0x100)} | {0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x10ffff} | {r.randrange(0x110000) for _ in range(c.n(1200, 5000))})
    for cp in cps:
        if 0xd800 <= cp < 0xe000: continue
        ch = chr(cp)
        u = ch.encode("utf-16-be")
        esc = "".join("\\u%02x%02x" % (u[i], u[i + 1]) for i in range(0, len(u), 2))
        parsed('"%s"' % esc, ch.encode())
        parsed('"a%sb"' % esc.upper().replace("\\U", "\\u"), b"a" + ch.encode() + b"b")
        if cp >= 32 and ch not in '"\\': parsed('"%s"' % ch, ch.encode())
    for e, v in zip('"\\/bfnrt', b'"\\/\b\f\n\r\t'):
        parsed('"\\%s"' % e, bytes([v])); parsed('"x\\%s\\%sy"' % (e, e), b"x" + bytes([v, v]) + b"y")
    for _ in range(c.n(4000, 20000)):
        b = R.SCALARS["string"].gen(r)
        parsed(R.jwrite(R.T(b), r), b)
    for e in ("\\x41", "\\u12", "\\u12g4", "\\", "\\'", "\\U0041", "\x01", "\n", "\t", "\\ud800", "\\ud800x", "\\ud800\\u0041", "\\a", "\\0"):
        t = '"%s"' % e
        c.count(("bad", t), "malformed_refused")
        for o in (("nj", "string"), ("j2b", 1, 1, "string"), ("j2r", 1, 1, "string")):
            x.add(lambda res: None if res.err else ("string:malformed-accepted", "should be rejected, got %r" % res), *o, t)
    for t in ("", "\"", "\"a", "'a'", "\"a\"x", "[\"a\"", "nul", "tru", "\"a\" \"b\"", "{", "[", "]", "}", ",", "\"\\\"", "[\"a\",]", "{\"a\":}", "//", "\"a\"//"):
        c.count(("badtext", t), "malformed_refused")
        for o in (("j2b", 1, 1, "string"), ("j2r", 1, 1, "string")):
            x.add(lambda res: None if res.err else ("malformed-accepted", "should be rejected, got %r" % res), *o, t)

    # documents: ABIs whose member and alternative names need escaping, values full of awkward strings
    kinds = ["string", "string", "bytes", "float64", "name", "int64", "uint8", "asset", "time_point", "bool"]
    for i in range(c.n(1000, 5000)):
        a = R.gen_abi(r, size=r.choice([1, 2, 4]), kinds=kinds)
        s = p.script()
        dyn.setup(s, a)
        ts = R.usable_types(a)
        for n, t in r.sample(ts, min(len(ts), 5)):
            for _ in range(3):
                v = a.gen(t, r, raw=True)
                b = a.enc(t, v)
                v = a.decode(t, b)
                c.count((n, b, i), "documents_printed")
                s.add(dyn.judge_json("document", a.out(t, v)), "b2j", 1, 1, n, b)
                if not a.lossy(t, v):
                    js = R.jwrite(a.out(t, v), r)
                    c.count(("in", js), "documents_parsed")
                    s.add(dyn.judge_bin("document-parse", b), r.choice(["j2b", "j2r"]), 1, 1, n, js)
    # compact and indented forms of arrays of strings
    for _ in range(c.n(1200, 4000)):
        l = [R.SCALARS["string"].gen_raw(r) for _ in range(r.randrange(6))]
        want = ("a", [R.T(A.utf8_repair(b)) for b in l])
        c.count(("vec", tuple(l)), "indented_arrays")
        def j(res, want=want):
            if not res.ok: return ("indented", repr(res))
            for t in res.f[:2]:
                try: d = R.jsame(want, R.jparse(t))
                except (ValueError, UnicodeDecodeError): d = "not JSON"
                if d: return ("indented", "%r: %s" % (t, d))
            if b"\n" in res.f[0] or b"\t" in res.f[0]: return ("indented", "compact form has line breaks: %r" % res.f[0])
        x.add(j, "jvec", *l)
    for n in R.BUILTINS:
        sc = R.SCALARS.get(n)
        if sc:
            for _ in range(c.n(100, 400)): x.value(n, getattr(sc, "gen_raw", sc.gen)(r))
    c.sample({"bytes": (b'"\xff\0'.hex()), "printed": R.jwrite(R.T(A.utf8_repair(b'"\xff\0')))})
    p.run()
    return c.finish(1000)
