"""Shared by the checks of one scalar's text: values and texts go through the compiled C++ type and the ABI type alike."""
from ref import abi as R
from ref.abi import Reject, Unspec, Huge
from . import dyn


class Run:
    def __init__(self, c, p, prefix=""):
        self.c, self.p, self.r, self.pre = c, p, c.rng, prefix
        self.k = 0
        self.fresh()

    def fresh(self):
        self.s = self.p.script()
        dyn.setup(self.s, dyn.BUILTIN_ABI)

    def add(self, judge, *a):
        self.k += 1
        if self.k % 400 == 0: self.fresh()
        self.s.add(judge, *a)

    def value(self, n, v, native=True, dynamic=True):
        """binary of v -> the model's JSON and the same bytes again, through both paths"""
        a, t = dyn.BUILTIN_ABI, dyn.builtin_t(n)
        b = a.enc(t, v)
        try: want = a.out(t, v)
        except Unspec: want = None
        self.c.count((self.pre, n, "print", b), self.pre + n + "_printed")
        isnan = n.startswith("float") and n != "float128" and R.SCALARS[n].isnan(v)

        def nat(res):
            if not res.ok: return (self.pre + n + ":native-print", "value refused: %r" % res)
            if res.f[0] != b: return (self.pre + n + ":native-bytes", "re-encoded as %s" % res.f[0].hex())
            if want is not None:
                for i, form in ((1, "compact"), (2, "indented")):
                    try: got = R.jparse(res.f[i])
                    except ValueError: return (self.pre + n + ":native-invalid-" + form, "not JSON: %r" % res.f[i])
                    d = R.jsame(want, got)
                    if d: return (self.pre + n + ":native-" + form, "printed %r, should be %s" % (res.f[i], R.jwrite(want)))
        if native: self.add(nat, "nb", n, b)
        if want is None: return
        if dynamic: self.add(dyn.judge_json(self.pre + n + ":print", want), "b2j", 1, 1, n, b)

    def text(self, n, tree, how, native=True, dynamic=True, order=False):
        """a JSON document -> the model's bytes, or refused, through both paths"""
        a, t = dyn.BUILTIN_ABI, dyn.builtin_t(n)
        js = R.jwrite(tree)
        try: want = a.enc(t, a.parse(t, tree, True))
        except Reject: want = None
        except Unspec:
            self.c.note("unspecified_not_judged")
            if native: self.add(None, "nj", n, js)
            if dynamic: self.add(None, "j2b", 1, 1, n, js)
            return None
        self.c.count((self.pre, n, js), self.pre + n + ("_refused" if want is None else "_parsed"))

        def nat(res):
            if want is None: return None if res.err and res.f[0] else (n + ":native-accepted:" + how, "%s should be rejected, got %r" % (js, res))
            if not res.ok: return (self.pre + n + ":native-rejected:" + how, "%s should give %s, got %r" % (js, want.hex(), res))
            if res.f[0] != want: return (self.pre + n + ":native-value:" + how, "%s should give %s, got %s" % (js, want.hex(), res.f[0].hex()))
        if native: self.add(nat, "nj", n, js)
        if dynamic:
            self.add(dyn.judge_bin(self.pre + n + ":" + how, want), "j2b", 1, 1, n, js)
            if self.r.random() < .3: self.add(dyn.judge_bin(self.pre + n + ":reorderable-" + how, want), "j2r", 1, 1, n, js)
        return want

    def standard(self, n, count, native=True):
        """generated values printed and parsed, other spellings, and texts that denote no value"""
        sc = R.SCALARS[n]
        for i in range(count):
            raw = getattr(sc, "gen_raw", sc.gen)(self.r)
            self.value(n, raw, native)
            v = sc.gen(self.r)
            try: self.text(n, sc.out(v), "own-text", native)
            except Unspec: pass
            self.text(n, sc.spell(v, self.r), "spelling", native)
            if i % 2 == 0:
                for t in sc.bad(self.r): self.text(n, t, "bad", native)
            if i < 1: self.c.sample({"type": n, "value": repr(v), "json": R.jwrite(sc.spell(v, self.r))})

    def string_edits(self, n, s, k, alphabet):
        """every kind of single-character edit of the text s, sampled k times"""
        r = self.r
        for _ in range(k):
            i = r.randrange(len(s) + 1)
            e = r.randrange(4)
            if e == 0: t = s[:i] + r.choice(alphabet) + s[i:]
            elif e == 1: t = s[:i] + s[i + 1:]
            elif e == 2: t = s[:i] + r.choice(alphabet) + s[i + 1:]
            else: t = s[:i] + s[i:i + 2][::-1] + s[i + 2:]
            self.text(n, R.T(t), "edited")
