"""Assets, symbols and symbol codes: exact decimal text both ways, and refusal of whatever does not fit."""
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R, algos as A
from .scal import Run


def run():
    c = Check("C14", "a case is one asset, symbol or code printed, or one text parsed (amounts around 2^63 at every precision, precisions 0..300, codes of 0..9 letters, "
              "single-character edits), through the compiled type, the ABI type and the text helpers; judged by big-integer decimal arithmetic; distinct by type and text")
    p = Plan(c, build("vh"))
    x, r = Run(c, p), c.rng
    for n in ("asset", "symbol", "symbol_code"):
        x.standard(n, c.n(2000, 20000))
    # every precision, with amounts that exercise padding and both bounds
    for prec in range(256):
        sym = A.code_value(R.gen_code(r)) << 8 | prec
        x.value("symbol", sym)
        x.text("symbol", R.T(A.symbol_text(sym)), "own-text")
        amts = [0, 1, -1, 9, 10, -10, (1 << 63) - 1, -(1 << 63), 10 ** min(prec, 18), -10 ** min(prec, 18), 10 ** min(prec, 18) - 1, r.getrandbits(63), -r.getrandbits(63)]
        for v in amts if prec < 24 or c.thorough else r.sample(amts, 4):
            x.value("asset", (v, sym))
            x.text("asset", R.T(A.asset_text(v, sym)), "own-text")
            x.text("extended_asset", ("o", [(b"quantity", R.T(A.asset_text(v, sym))), (b"contract", R.T("eosio.token"))]), "own-text")
        for v in ((1 << 63), -(1 << 63) - 1, (1 << 63) + 1, 10 ** 19, (1 << 64), (1 << 64) + 1, -(1 << 64), 1 << 65, 10 * (1 << 63) + 5, (1 << 64) + r.getrandbits(63), -(1 << 64) - r.getrandbits(63)):
            x.text("asset", R.T(A.asset_text(v, sym)), "amount-out-of-range")
    for d in range(250, 262):
        x.text("asset", R.T("0." + "0" * d + " ABC"), "precision-limit")
        x.text("asset", R.T("-0." + "0" * (d - 1) + "7 ABC"), "precision-limit")
    for prec in list(range(0, 300)) + [511, 512, 1000, 65535, 65536, 65540, (1 << 32), (1 << 32) + 4, (1 << 64), (1 << 64) + 4, 10 ** 25]:
        for code in ("A", "ABCDEFG", "SYS"):
            x.text("symbol", R.T("%d,%s" % (prec, code)), "precision")
    # codes: every length 0..9 and every character in each position
    for l in range(10):
        t = "ABCDEFGHI"[:l]
        x.text("symbol_code", R.T(t), "length")
        x.text("symbol", R.T("4," + t), "length")
        x.text("asset", R.T("1.0000 " + t), "length")
    for ch in range(1, 128):
        for t in (chr(ch) + "BC", "A" + chr(ch) + "C", "AB" + chr(ch), chr(ch)):
            x.text("symbol_code", R.T(t), "character")
            x.text("symbol", R.T("4," + t), "character")
            x.text("asset", R.T("1.0000 " + t), "character")
    for n, s in (("asset", "12.3450 ABC"), ("asset", "-0.0001 SYS"), ("asset", "922337203685477.5807 EOS"), ("symbol", "4,EOS"), ("symbol", "255,ABCDEFG"), ("symbol_code", "EOS"), ("symbol_code", "ABCDEFG")):
        x.string_edits(n, s, c.n(320, 1500), "0123456789.-+, ABZaz@[/:\0é")
    # the text helpers themselves (exactly-sized buffers: a read past the end is an ASan report)
    s = p.script()
    for i in range(c.n(3200, 20000)):
        sym = R.SCALARS["symbol"].gen(r)
        amt = R.edge_int(r, -(1 << 63), (1 << 63) - 1)
        st, at, ct = A.symbol_text(sym), A.asset_text(amt, sym), A.code_text(sym >> 8)
        c.count(("h", sym, amt), "helpers", 5)

        def eq(*want):
            want = [w if isinstance(w, bytes) else str(w).encode() for w in want]
            return lambda res: None if res.ok and res.f == want else "should give %r, got %r" % (want, res)
        s.add(eq(st, ct), "symtext", sym)
        s.add(eq(at), "assettext", amt & A.M64 if False else str(amt & A.M64), sym)
        s.add(eq(sym), "symparse", st)
        s.add(eq(sym >> 8), "codeparse", ct)
        s.add(eq(amt, sym), "assetparse", at)
        inside = abs(amt) < 1 << 62
        s.add(eq(amt, sym) if inside else lambda res, at=at: None if res.err else "%s is beyond the range of an asset, but gives %r" % (at, res), "assetfrom", at)
        s.add(lambda res, at=at: None if res.err else "text after the code should be rejected, got %r" % res, "assetfrom", at + r.choice([" ", "x", "\0", ",", " " + at, "1"]))
        # the value at the start of a longer text
        tail = r.choice(["", " ", ",", "a", "1", "\0", "@", " " + at, "." + at, "[" + ct, "é"])
        s.add(eq(amt, sym, len(at)), "textprefix", "asset", at + tail)
        s.add(eq(0, sym, len(st)), "textprefix", "symbol", st + tail)
        s.add(eq(0, sym >> 8, len(ct)), "textprefix", "code", ct + tail)
        for o, t in (("asset", at + "ABCDEFG"), ("symbol", st + "ABCDEFG"), ("code", ct + "ABCDEFG"), ("symbol", ct), ("code", tail[:1].lower()), ("asset", at.split(" ")[0]), ("symbol", st.split(",")[0])):
            s.add(lambda res, t=t: None if res.err else "%r should be rejected, got %r" % (t, res), "textprefix", o, t)
        c.count(("prefix", sym, amt, tail), "texts with a tail", 12)
        for o, t in (("symparse", st[:-len(ct)]), ("codeparse", ""), ("assetparse", at[:-len(ct)]), ("assetparse", at.split(" ")[0]), ("symparse", st.split(",")[0]), ("codeparse", ct + "@"),
                     ("symparse", ""), ("assetparse", "")):
            if o == "assetparse" and t.endswith(" ") is False and t and not ct: continue
            c.count((o, t), "helpers")
            s.add(lambda res: None if res.err else "should be rejected, got %r" % res, o, t)
        good = R.valid_code(sym >> 8)
        s.add(eq(st, ct, "%d %d %d %d %d %d" % (good, good, sym & 255, sym >> 8, len(ct), sym)), "symobj", sym)
        s.add(eq(sym >> 8, sym, sym), "symmake", ct, sym & 255)
        raw = sum(r.choice([0, 0x40, 0x41, 0x5a, 0x5b, 0x61, r.randrange(256)]) << 8 * k for k in range(r.randrange(1, 8))) << 8 | r.randrange(256)
        s.add(lambda res, raw=raw: None if res.ok and res.f[2].split()[0] == b"%d" % R.valid_code(raw >> 8) else "validity of %d is %r" % (raw, res), "symobj", str(raw))
        k = r.randrange(len(ct))
        for t in (ct[:k] + r.choice("a@[0. \0") + ct[k + 1:], ct + "ABCDEFG"):
            c.count(("make", t), "helpers")
            s.add(lambda res: None if res.err else "should be rejected, got %r" % res, "symmake", t, 4)
        if i % 300 == 299: s = p.script()
    # values that are no valid symbol still format without error or damage
    for v in [0, 255, 1 << 63, A.M64, 0x2200, 0x5c0a00] + [r.getrandbits(64) for _ in range(50)]:
        x.value("symbol", v); x.value("symbol_code", v); x.value("asset", (r.getrandbits(62), v))
    p.run()
    return c.finish(1000)
