"""Executable reference model of ABIs: types, values, wire format, JSON.

Independent of the code under test: written from the EOSIO ABI and wire format descriptions.
Values: scalars as Python objects (see SCALARS), optional: None or ('some', v), array: list, struct: list of the
members present (shorter only when trailing extensions are left out), variant: (index, v)."""
import json, math, re, struct
from . import algos as A


class Reject(Exception): pass
class Unspec(Exception): pass  # the properties do not say
class Huge(Unspec): pass       # ... and it takes very long


# ------------------------------------------------------------------------------------------ cursor
class In:
    def __init__(self, b): self.b, self.p = b, 0
    def take(self, n):
        if n > len(self.b) - self.p: raise Reject("overrun")
        r = self.b[self.p:self.p + n]
        self.p += n
        return r
    @property
    def end(self): return self.p == len(self.b)


def leb(v):
    out = bytearray()
    while True:
        b = v & 127
        v >>= 7
        out.append(b | (128 if v else 0))
        if not v: return bytes(out)


def unleb(s, bits=32):
    r = 0
    for i in range((bits + 6) // 7):
        b = s.take(1)[0]
        r |= (b & 127) << (7 * i)
        if not b & 128:
            if r >> bits: raise Unspec("varint with bits beyond its width")
            return r
    raise Reject("varint too long")


# ------------------------------------------------------------------------------------------ JSON trees
# ('n',) ('b', bool) ('t', bytes, is_number) ('o', [(key bytes, tree)]) ('a', [tree])
class _Num(str): pass


def jparse(text):
    """Independent JSON parser (CPython's), keeping member order, duplicates and number spellings."""
    if isinstance(text, bytes): text = text.decode("utf-8")
    def bad(_): raise ValueError("constant")
    v = json.loads(text, object_pairs_hook=lambda p: ("o", p), parse_int=_Num, parse_float=_Num, parse_constant=bad)
    def conv(x):
        if x is None: return ("n",)
        if isinstance(x, bool): return ("b", x)
        if isinstance(x, _Num): return ("t", x.encode(), True)
        if isinstance(x, str): return ("t", x.encode("utf-8", "surrogatepass"), False)
        if isinstance(x, tuple): return ("o", [(k.encode("utf-8", "surrogatepass"), conv(w)) for k, w in x[1]])
        return ("a", [conv(w) for w in x])
    return conv(v)


def jstr(b):
    """bytes (valid UTF-8) -> JSON string literal"""
    return json.dumps(b.decode("utf-8"), ensure_ascii=False)


def jwrite(t, rng=None):
    """tree -> text; with rng: random white space and escapes."""
    ws = (lambda: rng.choice(["", "", "", " ", "\n", "\t", "\r\n ", "  "])) if rng else (lambda: "")
    def s(b):
        u = b.decode("utf-8")
        if not rng or rng.random() < .7: return json.dumps(u, ensure_ascii=False)
        o = '"'
        for c in u:
            k = rng.random()
            if c in '"\\' or ord(c) < 32:
                o += json.dumps(c)[1:-1] if k < .5 else "\\u%04x" % ord(c)
            elif k < .15:
                o += "".join("\\u%04X" % w for w in struct.unpack("<%dH" % (len(c.encode("utf-16-le")) // 2), c.encode("utf-16-le")))
            elif c == "/" and k < .5: o += "\\/"
            else: o += c
        return o + '"'
    def w(t):
        k = t[0]
        if k == "n": return "null"
        if k == "b": return "true" if t[1] else "false"
        if k == "t": return t[1].decode() if t[2] else s(t[1])
        if k == "a": return "[" + ws() + ("," + ws()).join(w(x) + ws() for x in t[1]) + "]"
        return "{" + ws() + ("," + ws()).join(s(k2) + ws() + ":" + ws() + w(x) + ws() for k2, x in t[1]) + "}"
    return ws() + w(t) + ws()


def jsame(a, b, path="$"):
    """None if the trees denote the same document (numbers by value and sign), else the first difference."""
    if a[0] != b[0]: return "%s: %r vs %r" % (path, a[:2], b[:2])
    if a[0] == "t":
        if a[2] != b[2]: return "%s: number vs string (%r, %r)" % (path, a[1], b[1])
        if a[1] == b[1]: return None
        if a[2] and num_eq(a[1], b[1]): return None
        return "%s: %r vs %r" % (path, a[1], b[1])
    if a[0] == "b": return None if a[1] == b[1] else path + ": bool"
    if a[0] == "a":
        if len(a[1]) != len(b[1]): return "%s: %d vs %d elements" % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = jsame(x, y, "%s[%d]" % (path, i))
            if d: return d
    if a[0] == "o":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]: return "%s: members %r vs %r" % (path, [k for k, _ in a[1]], [k for k, _ in b[1]])
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = jsame(x, y, "%s.%s" % (path, k.decode("utf-8", "replace")))
            if d: return d
    return None


def num_eq(a, b):
    if re.fullmatch(rb"-?\d+", a) and re.fullmatch(rb"-?\d+", b) and int(a) != int(b): return False
    return struct.pack("<d", float(a)) == struct.pack("<d", float(b))


# ------------------------------------------------------------------------------------------ scalars
def text_of(t):
    if t[0] != "t": raise Reject("expected string")
    return t[1]


def T(s, num=False): return ("t", s if isinstance(s, bytes) else s.encode(), num)


class Scalar:
    def enc(self, v): raise NotImplementedError
    def dec(self, s): raise NotImplementedError
    def out(self, v): raise NotImplementedError       # the JSON tree printed for v
    def parse(self, t): raise NotImplementedError     # JSON tree -> v (Reject / Unspec)
    def gen(self, r): raise NotImplementedError
    def spell(self, v, r): return self.out(v)         # another accepted JSON tree for v
    def bad(self, r): return []                       # JSON trees that do not denote a value of the type
    minsize = 1


def edge_int(r, lo, hi):
    k = r.random()
    if k < .25: return r.choice([lo, hi, 0 if lo <= 0 else lo, lo + 1, hi - 1, 1, min(hi, 9), min(hi, 10), -1 if lo < 0 else 2])
    if k < .6:
        b = r.randrange(hi.bit_length() + 1)
        v = r.choice([(1 << b) - 1, 1 << b, r.getrandbits(b + 1)])
        if lo < 0 and r.random() < .5: v = -v
        return max(lo, min(hi, v))
    if k < .75:
        v = 10 ** r.randrange(len(str(hi))) + r.choice([-1, 0, 1])
        if lo < 0 and r.random() < .5: v = -v
        return max(lo, min(hi, v))
    return r.randint(lo, hi)


class Int(Scalar):
    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed
        self.lo, self.hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        self.minsize = bits // 8
    def enc(self, v): return v.to_bytes(self.bits // 8, "little", signed=self.signed)
    def dec(self, s): return int.from_bytes(s.take(self.bits // 8), "little", signed=self.signed)
    def out(self, v): return T(str(v), self.bits <= 32)
    def parse(self, t):
        x = text_of(t)
        if not re.fullmatch(rb"-?[0-9]+", x): raise Reject("not an integer")
        v = int(x)
        if v == 0 and x[:1] == b"-" and not self.signed: raise Unspec("-0")
        if not self.lo <= v <= self.hi: raise Reject("range")
        return v
    def gen(self, r): return edge_int(r, self.lo, self.hi)
    def spell(self, v, r):
        s = str(v)
        if r.random() < .3: return T(s, r.random() < .5)
        if r.random() < .2: return T(("-" if v < 0 else "") + "0" * r.randrange(1, 30) + str(abs(v)), False)
        return self.out(v)
    def bad(self, r):
        big = [self.hi + 1, self.hi + 2, self.hi + r.randrange(1, 10**6), self.hi * 2, self.hi * 10 + r.randrange(10), 10 * (self.hi + 1),
               (self.hi + 1) * 2, self.lo - 1, self.lo - 2, self.lo * 2 - 1, self.lo * 10 - r.randrange(1, 10), 1 << 64, 1 << 128, 1 << 256,
               -(1 << 64), -(1 << 128), self.hi + (1 << self.bits), self.lo - (1 << self.bits), (self.hi // 10 + 1) * 10 + 9, r.randrange(1 << 128, 1 << 140)]
        v = r.choice(big)
        bads = [T(str(v), True), T(str(v), False), T("", False), T("-", False), T("+5", False), T("5.0", True), T("1e2", True), T(" 5", False),
                T("5 ", False), T("0x10", False), T("5a", False), T("--5", False), T("5-", False), T("١", False), ("n",), ("b", True), ("b", False), ("a", []),
                ("o", []), T("5\0", False), T(b"5,", False), T(":", False), T("/", False), T("1/", False), T("1:", False), ("a", [T("1", True)])]
        out = [bads[0], bads[1]] + r.sample(bads[2:], 3)
        return [b for b in out if not self._ok(b)]
    def _ok(self, b):
        try: self.parse(b); return True
        except Reject: return False
        except Unspec: return True


class VarU(Int):
    minsize = 1
    def __init__(self): Int.__init__(self, 32, False); self.minsize = 1
    def enc(self, v): return leb(v)
    def dec(self, s): return unleb(s)


class VarI(Int):
    def __init__(self): Int.__init__(self, 32, True); self.minsize = 1
    def enc(self, v): return leb((v << 1 if v >= 0 else ((-v - 1) << 1) | 1))
    def dec(self, s):
        u = unleb(s)
        return -((u >> 1) + 1) if u & 1 else u >> 1


class Bool(Scalar):
    def enc(self, v): return b"\1" if v else b"\0"
    def dec(self, s):
        b = s.take(1)[0]
        if b > 1: raise Unspec("bool byte")
        return b == 1
    def out(self, v): return ("b", v)
    def parse(self, t):
        if t[0] != "b": raise Reject("bool")
        return t[1]
    def gen(self, r): return r.random() < .5
    def bad(self, r): return r.sample([T("true"), T("1", True), T("0", True), ("n",), ("a", []), ("o", []), T("")], 2)


def round_to(x, bits):
    """exact Fraction -> nearest-even bit pattern, or Reject on overflow"""
    from fractions import Fraction
    p, emin, emax = (24, -149, 127) if bits == 32 else (53, -1074, 1023)
    neg = x < 0
    x = abs(x)
    if x == 0: return 0.0, neg
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while Fraction(2) ** e > x: e -= 1
    while Fraction(2) ** (e + 1) <= x: e += 1
    q = max(e - p + 1, emin)
    y = x / Fraction(2) ** q
    n = y.numerator // y.denominator
    rem = y - n
    if rem > Fraction(1, 2) or (rem == Fraction(1, 2) and n & 1): n += 1
    if n * Fraction(2) ** q >= Fraction(2) ** (emax + 1): raise Reject("overflow")
    return math.ldexp(n, q), neg


NUMRE = re.compile(rb"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?")


class Float(Scalar):
    def __init__(self, bits):
        self.bits = bits
        self.f, self.i = ("<f", "<I") if bits == 32 else ("<d", "<Q")
        self.minsize = bits // 8
    # value: bit pattern
    def enc(self, v): return struct.pack(self.i, (0x7fc00000 if self.bits == 32 else 0x7ff8 << 48) if v == "nan" else v)
    def dec(self, s): return struct.unpack(self.i, s.take(self.bits // 8))[0]
    def num(self, v): return struct.unpack(self.f, self.enc(v))[0]
    def out(self, v):
        x = self.num(v)
        if math.isnan(x): return T("NaN")
        if math.isinf(x): return T("Infinity" if x > 0 else "-Infinity")
        return T(repr(x), True)
    def parse(self, t):
        from fractions import Fraction
        x = text_of(t)
        if x in (b"Infinity", b"-Infinity"): return struct.unpack(self.i, struct.pack(self.f, float(x)))[0]
        if x == b"NaN": return "nan"
        if not NUMRE.fullmatch(x):
            if re.fullmatch(rb"\s*[+-]?(0[xX][0-9a-fA-F.]+([pP][+-]?\d+)?|inf|infinity|nan(\([0-9a-zA-Z_]*\))?|[0-9.]+([eE][+-]?\d+)?)", x, re.I):
                raise Unspec("C spelling")
            raise Reject("not a number")
        m = re.search(rb"[eE]([+-]?\d+)$", x)
        if m and abs(int(m.group(1))) > 5000:
            if not re.search(rb"[1-9]", re.split(rb"[eE]", x)[0]): v, neg = 0.0, x[:1] == b"-"
            elif int(m.group(1)) > 0: raise Reject("overflow")
            else: v, neg = 0.0, x[:1] == b"-"
        else:
            v, neg = round_to(Fraction(x.decode().rstrip(".")) if not re.match(rb"[+-]?\.", x) else Fraction(x.decode().replace(".", "0.", 1)), self.bits)
        neg = x[:1] == b"-"
        b = struct.unpack(self.i, struct.pack(self.f, v))[0]
        return b | (1 << self.bits - 1) if neg else b
    def isnan(self, v): return math.isnan(self.num(v))
    def gen(self, r):
        while True:
            b = self.gen_raw(r)
            if not self.isnan(b): return b
    def gen_raw(self, r):
        k = r.random()
        m, e = (23, 8) if self.bits == 32 else (52, 11)
        if k < .1: b = r.choice([0, 1, 2, (1 << m) - 1, 1 << m, ((1 << e) - 1) << m, (((1 << e) - 1) << m) - 1, (((1 << e - 1) - 1) << m)])
        elif k < .2: b = r.getrandbits(m)                                           # subnormal
        elif k < .4: b = (r.randrange((1 << e) - 1) << m) | r.choice([0, 1, (1 << m) - 1, (1 << m) - 2])   # boundaries of binades
        elif k < .6:
            x = float("%d.%de%d" % (r.randrange(10), r.randrange(10 ** r.randrange(1, 17)), r.randrange(-30, 30)))
            b = struct.unpack(self.i, struct.pack(self.f, x))[0]
        elif k < .7: b = struct.unpack(self.i, struct.pack(self.f, float(r.randrange(10 ** r.randrange(1, 20)))))[0]
        else: b = r.getrandbits(m + e)
        return b | (r.getrandbits(1) << m + e)
    def spell(self, v, r):
        x = self.num(v)
        if math.isnan(x) or math.isinf(x): return self.out(v)
        k = r.random()
        s = repr(x) if k < .5 else "%.*e" % (r.choice([17, 20, 30]), x)
        if k > .9 and abs(x) < 1e15 and self.bits == 64: s = "%.40f" % x if abs(x) > 1e-10 else s
        return T(s, r.random() < .6)
    def bad(self, r):
        big = ["1e39", "3.5e38", "-1e39", "1e400", "-1e999999"] if self.bits == 32 else ["1e309", "1.8e308", "-1e309", "1e400", "-1e999999"]
        return [T(r.choice(big), r.random() < .5)] + r.sample([T(""), T("a"), T("1a"), T("1e"), T("1.0 "), T("1,0"), T("--1"), ("n",), ("b", True), ("a", []), ("o", []),
                T("1\0"), T("1.5.5"), T("e5"), T("."), T("-")], 3)


class Hex(Scalar):
    """fixed-size raw bytes printed in hex"""
    def __init__(self, n): self.n = self.minsize = n
    def enc(self, v): return v
    def dec(self, s): return s.take(self.n)
    def out(self, v): return T(v.hex().upper())
    def parse(self, t):
        x = text_of(t)
        if not re.fullmatch(rb"([0-9a-fA-F]{2})*", x) or len(x) != 2 * self.n: raise Reject("hex")
        return bytes.fromhex(x.decode())
    def gen(self, r): return bytes(r.choice([0, 255, 0x0f, r.randrange(256)]) if r.random() < .5 else r.randrange(256) for _ in range(self.n))
    def spell(self, v, r): return T("".join(r.choice([c, c.upper()]) for c in v.hex()))
    def bad(self, r):
        h = self.gen(r).hex()
        i = r.randrange(len(h))
        return r.sample([T(h[:-1]), T(h[:-2]), T(h + "0"), T(h + "00"), T(h[:i] + r.choice("gGxX -:@`/") + h[i + 1:]), T(""), ("n",), ("b", True),
                         ("a", []), T("0x" + h[2:]), T(h + h), T(h[:2])], 4)


class Bytes(Scalar):
    def enc(self, v): return leb(len(v)) + v
    def dec(self, s): return s.take(unleb(s, 64))
    def out(self, v): return T(v.hex().upper())
    def parse(self, t):
        x = text_of(t)
        if not re.fullmatch(rb"([0-9a-fA-F]{2})*", x): raise Reject("hex")
        return bytes.fromhex(x.decode())
    def gen(self, r):
        n = r.choice([0, 1, 2, 3, r.randrange(8), r.randrange(40), 127, 128, 129] + ([300] if r.random() < .2 else []))
        return r.randbytes(n)
    def spell(self, v, r): return T("".join(r.choice([c, c.upper()]) for c in v.hex()))
    def bad(self, r):
        h = r.randbytes(r.randrange(1, 9)).hex()
        i = r.randrange(len(h))
        return r.sample([T(h[:-1]), T(h + "0"), T(h[:i] + r.choice("gGxX -:@`/") + h[i + 1:]), ("n",), ("b", True), ("a", []), ("o", [])], 3)


ALPH = ["a", "b", "Z", "0", " ", "\"", "\\", "/", "\b", "\n", "\0", "\x01", "\x1f", "\x7f", "\x80", "é", "߿", "ࠀ", "€", "퟿", "", "�", "￿", "𐀀", "😀", "\U0010ffff", ",", ":", "[", "{", "'"]


class String(Scalar):
    """value: bytes; JSON can only carry valid UTF-8"""
    def enc(self, v): return leb(len(v)) + v
    def dec(self, s): return s.take(unleb(s, 32))
    def out(self, v): return T(A.utf8_repair(v))
    def parse(self, t): return text_of(t)
    def gen(self, r):
        k = r.random()
        if k < .4: return "".join(r.choice(ALPH) for _ in range(r.randrange(12))).encode()
        if k < .8: return bytes(r.choice(b"abcxyz019_.") for _ in range(r.randrange(10)))
        if k < .9: return b"x" * r.choice([126, 127, 128, 129, 255, 256])
        return b""
    def gen_raw(self, r):
        k = r.random()
        if k < .5: return self.gen(r)
        if k < .8: return bytes(r.choice([0x22, 0x5c, 0, 0x1f, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xa0, 0x9f, 0xed, 0xef, 0xf0, 0x8f, 0x90, 0xf4, 0xf5, 0xff, 0x41]) for _ in range(r.randrange(12)))
        b = bytearray(self.gen(r) + "€😀é".encode())
        for _ in range(r.randrange(1, 3)): b[r.randrange(len(b))] = r.randrange(256)
        return bytes(b)
    def bad(self, r): return r.sample([("n",), ("b", True), ("a", []), ("o", []), ("a", [T("x")])], 2)


class Name(Scalar):
    minsize = 8
    def enc(self, v): return struct.pack("<Q", v)
    def dec(self, s): return struct.unpack("<Q", s.take(8))[0]
    def out(self, v): return T(A.name_text(v))
    def parse(self, t): return A.name_json(text_of(t))
    def gen(self, r):
        k = r.random()
        if k < .3: return A.name_strict("".join(r.choice(A.CH) for _ in range(r.randrange(13))).encode())
        if k < .5: return r.getrandbits(64)
        if k < .6: return r.choice([0, 1, 15, 16, 1 << 63, A.M64, A.M64 - 15, 31 << 59])
        return A.name_strict("".join(r.choice("abcdefghijklmnopqrstuvwxyz12345.") for _ in range(r.randrange(1, 13))).encode())
    def bad(self, r): return r.sample([("n",), ("b", True), ("a", []), ("o", [])], 2)


US_MIN, US_MAX = A.days_of(0, 1, 1) * 86400 * 10**6, (A.days_of(9999, 12, 31) + 1) * 86400 * 10**6 - 1
TIMERE = re.compile(rb"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.(\d+))?")


def parse_time(x):
    """text -> microseconds since 1970 (Reject / Unspec)"""
    m = TIMERE.fullmatch(x)
    if not m:
        if re.fullmatch(rb"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.", x): raise Unspec("empty fraction")
        raise Reject("time")
    y, mo, d, h, mi, s = (int(m.group(i)) for i in range(1, 7))
    if not (1 <= mo <= 12 and 1 <= d <= A.days_in_month(y, mo) and h < 24 and mi < 60 and s < 60): raise Reject("time")
    f = m.group(8) or b""
    if len(f) > 6: raise Unspec("sub-microsecond digits")
    return (A.days_of(y, mo, d) * 86400 + h * 3600 + mi * 60 + s) * 10**6 + int(f.ljust(6, b"0") or b"0")


class TimeBase(Scalar):
    def bad(self, r):
        t = A.time_text(r.randint(0, 4102444800) * 10**6)
        i = r.choice([0, 3, 4, 5, 7, 8, 10, 11, 13, 14, 16, 17, 18])
        return r.sample([T(t[:10]), T(t[:-4][:-1]), T(t + "Z"), T(t[:i] + r.choice("xX/:- T") + t[i + 1:]) if t[i] not in "-T:" else T(t[:i] + "x" + t[i + 1:]),
                         T(""), ("n",), ("b", True), ("a", []), T("%04d-13-01T00:00:00" % r.randrange(1970, 2100)), T("2021-02-29T00:00:00.000"),
                         T("2020-02-30T00:00:00.000"), T("2021-04-31T00:00:00.000"), T("2020-00-10T00:00:00"), T("2020-01-00T00:00:00"), T("2020-01-32T00:00:00"),
                         T("2020-01-01T24:00:00"), T("2020-01-01T00:60:00"), T("2020-01-01T00:00:60"), T("2020-01-01 00:00:00"), T("2100-02-29T00:00:00"),
                         T(" " + t), T("5", True), T(t + " "), T("99999-01-01T00:00:00")], 4)
    def edge_us(self, r, lo, hi):
        k = r.random()
        if k < .35:
            y = r.choice([r.randrange(1970, 2107), r.choice([1970, 1999, 2000, 2001, 2004, 2038, 2099, 2100, 2106])])
            mo = r.randrange(1, 13)
            d = r.choice([1, A.days_in_month(y, mo), r.randrange(1, 29)])
            us = (A.days_of(y, mo, d) * 86400 + r.choice([0, 1, 86399, r.randrange(86400)])) * 10**6 + r.choice([0, 1000, 999000, 500000, r.randrange(1000) * 1000])
        elif k < .5: us = r.choice([lo, hi, lo + 1000, 0, 10**6, -1000, 951782400 * 10**6])
        else: us = r.randint(lo, hi)
        return max(lo, min(hi, us))


class TimePoint(TimeBase):
    minsize = 8
    def enc(self, v): return struct.pack("<q", v)
    def dec(self, s): return struct.unpack("<q", s.take(8))[0]
    def out(self, v):
        if not US_MIN <= v <= US_MAX: raise Unspec("time out of the four-digit years")
        return T(A.time_text(v))
    def parse(self, t): return parse_time(text_of(t))
    def gen(self, r): return self.edge_us(r, US_MIN if r.random() < .2 else 0, US_MAX if r.random() < .3 else 4294967295 * 10**6) // 1000 * 1000
    def spell(self, v, r):
        t = A.time_text(v)
        if v % 10**6 == 0 and r.random() < .5: t = t[:-4]
        return T(t + ("000" if "." in t and r.random() < .2 else ""))


class TimePointSec(TimeBase):
    minsize = 4
    def enc(self, v): return struct.pack("<I", v)
    def dec(self, s): return struct.unpack("<I", s.take(4))[0]
    def out(self, v): return T(A.time_text(v * 10**6))
    def parse(self, t):
        us = parse_time(text_of(t))
        if us % 10**6: raise Unspec("fraction of a second")
        if not 0 <= us // 10**6 <= 0xffffffff: raise Reject("range")
        return us // 10**6
    def gen(self, r): return self.edge_us(r, 0, 0xffffffff * 10**6) // 10**6
    def spell(self, v, r): return T(A.time_text(v * 10**6)[:-4]) if r.random() < .5 else self.out(v)
    def bad(self, r): return TimeBase.bad(self, r)[:3] + [T(r.choice(["1969-12-31T23:59:59.000", "2106-02-07T06:28:16.000", "9999-12-31T00:00:00", "0000-01-01T00:00:00", "2242-03-16T12:56:32"]))]


class Block(TimeBase):
    minsize = 4
    def enc(self, v): return struct.pack("<I", v)
    def dec(self, s): return struct.unpack("<I", s.take(4))[0]
    def us(self, v): return (v * 500 + A.EPOCH_2000_MS) * 1000
    def out(self, v): return T(A.time_text(self.us(v)))
    def parse(self, t):
        us = parse_time(text_of(t))
        ms = us // 1000 - A.EPOCH_2000_MS
        if ms < 0 or ms // 500 > 0xffffffff: raise Reject("range")
        return ms // 500
    def gen(self, r):
        return (self.edge_us(r, self.us(0), self.us(0xffffffff)) // 1000 - A.EPOCH_2000_MS) // 500
    def spell(self, v, r):
        return T(A.time_text(self.us(v) + r.choice([0, 0, 1000, 499000])))
    def bad(self, r): return TimeBase.bad(self, r)[:3] + [T(r.choice(["1999-12-31T23:59:59.500", "1970-01-01T00:00:00.000", "2068-01-19T03:14:08.000", "9999-12-31T00:00:00"]))]


class Key(Scalar):
    """value: (tag, payload)"""
    minsize = 33
    def __init__(self, kind): self.kind = kind
    def enc(self, v): return leb(v[0]) + v[1]
    def dec(self, s):
        tag = unleb(s)
        if tag >= A.KINDS[self.kind][1]: raise Reject("tag")
        b0 = s.p
        if tag < 2: s.take({"public_key": 33, "private_key": 32, "signature": 65}[self.kind])
        elif self.kind == "public_key":
            s.take(33)
            p = s.take(1)[0]
            if p > 2: raise Unspec("presence byte")
            self._str(s)
        else:
            s.take(65)
            self._str(s)
            self._str(s)
        return (tag, s.b[b0:s.p])
    def _str(self, s):
        q = s.p
        n = unleb(s)
        if s.b[q:s.p] != leb(n): raise Unspec("padded length")
        s.take(n)
    def out(self, v): return T(A.key_text(self.kind, *v))
    def parse(self, t):
        x = text_of(t)
        pre, n = A.KINDS[self.kind]
        for tag, c in enumerate(A.CURVES[:n]):
            p = ("%s_%s_" % (pre, c)).encode()
            if x.startswith(p): return self._check(tag, x[len(p):], c.encode())
        if self.kind == "public_key" and x.startswith(b"EOS"): return self._check(0, x[3:], b"")
        if self.kind == "private_key" and not x.startswith(b"PVT_"):
            b = A.b58d(x)
            if b is None: raise Reject("base58")
            if len(b) in (37, 38) and b[0] == 0x80 and A.sha256d(b[:-4])[:4] == b[-4:]:
                if len(b) == 38: raise Unspec("compressed WIF")
                return (0, b[1:33])
            if len(b) >= 37: raise Unspec("WIF checksum")
            raise Reject("WIF")
        raise Reject("prefix")
    def _check(self, tag, body, suffix):
        b = A.b58d(body)
        if b is None or len(b) < 5 or A.ripemd160(b[:-4] + suffix)[:4] != b[-4:]: raise Reject("checksum")
        s = In(leb(tag) + b[:-4])
        v = self.dec(s)
        if not s.end: raise Reject("trailing data")
        return v
    def gen(self, r):
        tag = r.randrange(A.KINDS[self.kind][1])
        n = {"public_key": 33, "private_key": 32, "signature": 65}[self.kind]
        if r.random() < .15: p = bytes(n)
        elif r.random() < .2: p = b"\0" * r.randrange(4) + r.randbytes(n)
        else: p = r.randbytes(n)
        p = p[:n]
        if tag == 2:
            st = lambda: (lambda b: leb(len(b)) + b)(r.randbytes(r.choice([0, 1, 5, 20, 127, 128])))
            p += bytes([r.randrange(3)]) + st() if self.kind == "public_key" else st() + st()
        return (tag, p)
    def spell(self, v, r):
        if v[0] == 0 and self.kind == "public_key" and r.random() < .3: return T(A.key_legacy_text(v[1]))
        if v[0] == 0 and self.kind == "private_key" and r.random() < .3: return T(A.key_wif(v[1]))
        return self.out(v)
    def bad(self, r):
        t = A.key_text(self.kind, *self.gen(r))
        i = r.randrange(7, len(t))
        c = r.choice([x for x in A.B58 if x != t[i]])
        c2 = r.choice("0OIl+/ _\0é")
        sw = t.replace("_K1_", "_r1_") if "_K1_" in t else (t.replace("_R1_", "_K1_") if "_R1_" in t else t.replace("_WA_", "_K1_"))
        return r.sample([T(t[:i] + c + t[i + 1:]), T(t[:i] + t[i + 1:]), T(t[:i] + r.choice(A.B58) + t[i:]), T(t[:i] + c2 + t[i + 1:]), T(sw),
                         T({"PUB": "PVT", "PVT": "SIG", "SIG": "PUB"}[t[:3]] + t[3:]), T(t[:7]), T(""), T(t.lower()), ("n",), ("b", True), ("a", []), T(t + "\0"), T(t + " "),
                         T("".join(t[:-2]) + t[-1] + t[-2]) if t[-1] != t[-2] else T("")], 4)


SYMCH = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def gen_code(r): return "".join(r.choice(SYMCH) for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7, 7])))


def valid_code(c):
    t = A.code_text(c)
    return 1 <= len(t) <= 7 and all(x in SYMCH for x in t) and A.code_value(t) == c


class Code(Scalar):
    minsize = 8
    def enc(self, v): return struct.pack("<Q", v)
    def dec(self, s): return struct.unpack("<Q", s.take(8))[0]
    def out(self, v):
        if not valid_code(v): raise Unspec("invalid symbol code")
        return T(A.code_text(v))
    def parse(self, t):
        x = text_of(t)
        if x[:1] == b" ": raise Unspec("leading space")
        if not re.fullmatch(rb"[A-Z]{1,7}", x): raise Reject("code")
        return A.code_value(x.decode())
    def gen(self, r): return A.code_value(gen_code(r))
    def bad(self, r):
        c = gen_code(r)
        i = r.randrange(len(c))
        return r.sample([T(""), T(c.lower()), T("ABCDEFGH"), T("ABCDEFGHI"), T(c[:i] + r.choice("a0@[ ._z,") + c[i + 1:] if i else c + r.choice("a0@[ _,")), ("n",), ("b", True), ("a", []), T(c + " "), T(c + "\0"),
                         T("É")], 4)


class Symbol(Scalar):
    minsize = 8
    def enc(self, v): return struct.pack("<Q", v)
    def dec(self, s): return struct.unpack("<Q", s.take(8))[0]
    def out(self, v):
        if not valid_code(v >> 8): raise Unspec("invalid symbol")
        return T(A.symbol_text(v))
    def parse(self, t):
        x = text_of(t)
        m = re.fullmatch(rb"([0-9]+),([A-Z]{1,7})", x)
        if not m:
            if re.fullmatch(rb"[0-9]+, +[A-Z]{1,7}", x): raise Unspec("space")
            raise Reject("symbol")
        if int(m.group(1)) > 255: raise Reject("precision")
        return A.code_value(m.group(2).decode()) << 8 | int(m.group(1))
    def gen(self, r): return A.code_value(gen_code(r)) << 8 | r.choice([0, 1, 4, 18, 255, r.randrange(256)])
    def spell(self, v, r): return T("00" + A.symbol_text(v)) if r.random() < .1 else self.out(v)
    def bad(self, r):
        c = gen_code(r)
        return r.sample([T("256," + c), T("257," + c), T("260," + c), T("1000," + c), T("4294967300," + c), T("-1," + c), T("," + c), T(c), T("4" + c), T("4,"), T("4,ABCDEFGH"), T("4," + c.lower()),
                         T("4.0," + c), T("4;" + c), T("4," + c + " "), T(""), ("n",), ("b", True), ("a", []), T("300," + c), T("512," + c), T("999," + c)], 5)


class Asset(Scalar):
    """value: (amount, symbol)"""
    minsize = 16
    def enc(self, v): return struct.pack("<qQ", *v)
    def dec(self, s): return struct.unpack("<qQ", s.take(16))
    def out(self, v):
        if not valid_code(v[1] >> 8): raise Unspec("invalid symbol")
        return T(A.asset_text(*v))
    def parse(self, t):
        x = text_of(t)
        m = re.fullmatch(rb"(-?)([0-9]+)(?:\.([0-9]+))? ([A-Z]{1,7})", x)
        if not m:
            if re.fullmatch(rb" *-?[0-9]*(\.[0-9]*)? *[A-Z]{1,7}", x): raise Unspec("loose spelling")
            raise Reject("asset")
        f = m.group(3) or b""
        a = int(m.group(1) + m.group(2) + f)
        if not -(1 << 63) <= a < 1 << 63 or len(f) > 255: raise Reject("range")
        return (a, A.code_value(m.group(4).decode()) << 8 | len(f))
    def gen(self, r):
        a = edge_int(r, -(1 << 63), (1 << 63) - 1) if r.random() < .6 else r.randrange(-10**6, 10**6)
        return (a, A.code_value(gen_code(r)) << 8 | r.choice([0, 0, 1, 2, 4, 4, 8, 18, 19, 20, 30, 255 if r.random() < .3 else 3, r.randrange(30)]))
    def spell(self, v, r):
        if r.random() < .1:
            t = A.asset_text(*v)
            return T("-00" + t[1:] if t[0] == "-" else "000" + t)
        return self.out(v)
    def bad(self, r):
        c = gen_code(r)
        p = r.randrange(0, 19)
        def dec(n):
            d = str(abs(n)).rjust(p + 1, "0")
            return ("-" if n < 0 else "") + (d[:-p] + "." + d[-p:] if p else d) + " " + c
        return [T(dec(r.choice([1 << 63, (1 << 63) + 1, -(1 << 63) - 1, 1 << 64, (1 << 64) + 5, 10**19, 10**30, -10**19, (1 << 63) + r.getrandbits(62), (1 << 64) + r.getrandbits(60),
                                92233720368547758080 // 10 * 10, 9223372036854775810, 99999999999999999999])))] + \
            r.sample([T("1.0000"), T(""), T("1.0000 "), T("1.0000 ABCDEFGH"), T("1.0000 abc"), T("1,0 " + c), T("1.0.0 " + c), T("+1.0 " + c), T("--1 " + c), T("1 " + c + " "), T("1 " + c + "x"),
                      T("0." + "0" * 256 + " " + c), T("1e5 " + c), T("- 1 " + c), T("5", True), ("n",), ("b", True), ("a", []), T("1 A1"), T("1.0 @"), T("1.0 ["), T("1/0 A"), T("1: A")], 4)


SCALARS = {
    "bool": Bool(), "int8": Int(8, True), "uint8": Int(8, False), "int16": Int(16, True), "uint16": Int(16, False), "int32": Int(32, True),
    "uint32": Int(32, False), "int64": Int(64, True), "uint64": Int(64, False), "int128": Int(128, True), "uint128": Int(128, False),
    "varuint32": VarU(), "varint32": VarI(), "float32": Float(32), "float64": Float(64), "float128": Hex(16), "time_point": TimePoint(),
    "time_point_sec": TimePointSec(), "block_timestamp_type": Block(), "name": Name(), "bytes": Bytes(), "string": String(),
    "checksum160": Hex(20), "checksum256": Hex(32), "checksum512": Hex(64), "public_key": Key("public_key"), "private_key": Key("private_key"),
    "signature": Key("signature"), "symbol": Symbol(), "symbol_code": Code(), "asset": Asset(),
}
BUILTINS = list(SCALARS) + ["extended_asset"]
INTS = [k for k, v in SCALARS.items() if isinstance(v, Int)]


# ------------------------------------------------------------------------------------------ ABIs
class BadAbi(Exception): pass


class Abi:
    """d: dict with version, types, structs, variants, actions, tables (all optional but version)"""
    def __init__(self, d, maxdepth=200):
        self.d = d
        self.aliases = {t["new_type_name"]: t["type"] for t in d.get("types", [])}
        self.structs = {s["name"]: s for s in d.get("structs", [])}
        self.variants = {v["name"]: v for v in d.get("variants", [])}
        self.cache = {}
        self.fcache = {}

    def canon(self, name, seen=()):
        """resolves a type expression: ('b', builtin) ('s', struct) ('v', variant) ('?', t) ('[]', t) ('$', t); raises BadAbi"""
        if name in self.cache: return self.cache[name]
        if name in seen or len(seen) > 100: raise BadAbi("cycle")
        seen = seen + (name,)
        if name in SCALARS: r = ("b", name)
        elif name in self.structs or name == "extended_asset": r = ("s", name)
        elif name in self.variants: r = ("v", name)
        elif name in self.aliases:
            r = self.canon(self.aliases[name], seen)
            if r[0] == "$": raise BadAbi("alias of extension")
        elif name.endswith("?") or name.endswith("[]"):
            n = 1 if name.endswith("?") else 2
            t = self.canon(name[:-n], seen)
            if t[0] in ("?", "[]", "$"): raise BadAbi("nesting")
            r = (name[-n:], t)
        elif name.endswith("$"):
            t = self.canon(name[:-1], seen)
            if t[0] == "$": raise BadAbi("nesting")
            r = ("$", t)
        else: raise BadAbi("unknown type " + name)
        self.cache[name] = r
        return r

    def fields(self, s, seen=()):
        """all members of struct s, base first: [(name, type)]"""
        if s in self.fcache: return self.fcache[s]
        if s == "extended_asset": return [("quantity", ("b", "asset")), ("contract", ("b", "name"))]
        if s in seen: raise BadAbi("base cycle")
        d = self.structs[s]
        out = []
        if d.get("base"):
            b = self.canon(d["base"])
            if b[0] != "s": raise BadAbi("base not a struct")
            out += self.fields(b[1], seen + (s,))
        out += [(f["name"], self.canon(f["type"])) for f in d.get("fields", [])]
        self.fcache[s] = out
        return out

    def alts(self, v): return [(t, self.canon(t)) for t in self.variants[v]["types"]]

    def validate(self):
        """raises BadAbi unless the definition is well-formed"""
        d = self.d
        if not d.get("version", "").startswith("eosio::abi/1."): raise BadAbi("version")
        names = [t["new_type_name"] for t in d.get("types", [])] + [s["name"] for s in d.get("structs", [])] + [v["name"] for v in d.get("variants", [])]
        if "" in names: raise BadAbi("unnamed")
        if len(set(names)) != len(names) or set(names) & set(BUILTINS): raise BadAbi("redefined")
        for n in self.aliases: self.canon(n)
        for n in self.structs: self.fields(n)
        for n in self.variants: self.alts(n)

    # -------------------------------------------------------------- wire
    def enc(self, t, v):
        k = t[0]
        if k == "b": return SCALARS[t[1]].enc(v)
        if k == "?": return b"\0" if v is None else b"\1" + self.enc(t[1], v[1])
        if k == "$": return self.enc(t[1], v)
        if k == "[]": return leb(len(v)) + b"".join(self.enc(t[1], x) for x in v)
        if k == "s": return b"".join(self.enc(ft, x) for (_, ft), x in zip(self.fields(t[1]), v))
        return leb(v[0]) + self.enc(self.alts(t[1])[v[0]][1], v[1])

    def dec(self, t, s, ext=True):
        k = t[0]
        if k == "b": return SCALARS[t[1]].dec(s)
        if k == "?":
            p = s.take(1)[0]
            if p > 1: raise Unspec("presence byte")
            return ("some", self.dec(t[1], s, ext)) if p else None
        if k == "$": return self.dec(t[1], s, ext)
        if k == "[]":
            n = unleb(s)
            if n > 1 << 12:
                m = self.minwire(t[1])
                if not m: raise Huge("huge array of possibly empty elements")
                if n * m > len(s.b) - s.p: raise Reject("count")
            return [self.dec(t[1], s, False) for _ in range(n)]
        if k == "s":
            fs, out, skipped = self.fields(t[1]), [], False
            for i, (_, ft) in enumerate(fs):
                if s.end and ft[0] == "$" and ext:
                    skipped = True
                    continue
                if skipped: raise Reject("member after omitted extension")
                out.append(self.dec(ft, s, ext and i == len(fs) - 1))
            return out
        i = unleb(s)
        al = self.alts(t[1])
        if i >= len(al): raise Reject("tag")
        return (i, self.dec(al[i][1], s, ext))

    def decode(self, t, b):
        s = In(b)
        v = self.dec(t, s)
        if not s.end: raise Reject("extra data")
        return v

    def minwire(self, t, seen=()):
        k = t[0]
        if k == "b": return SCALARS[t[1]].minsize
        if k in "?[]": return 1
        if k == "$": return self.minwire(t[1], seen)
        if k == "s":
            if t[1] in seen: return 0
            return sum(self.minwire(ft, seen + (t[1],)) for _, ft in self.fields(t[1]) if True)
        return 1

    # -------------------------------------------------------------- JSON
    def out(self, t, v):
        k = t[0]
        if k == "b": return SCALARS[t[1]].out(v)
        if k == "?": return ("n",) if v is None else self.out(t[1], v[1])
        if k == "$": return self.out(t[1], v)
        if k == "[]": return ("a", [self.out(t[1], x) for x in v])
        if k == "s": return ("o", [(n.encode(), self.out(ft, x)) for (n, ft), x in zip(self.fields(t[1]), v)])
        n, at = self.alts(t[1])[v[0]]
        return ("a", [T(n), self.out(at, v[1])])

    def spell(self, t, v, r):
        k = t[0]
        if k == "b": return SCALARS[t[1]].spell(v, r)
        if k == "?": return ("n",) if v is None else self.spell(t[1], v[1], r)
        if k == "$": return self.spell(t[1], v, r)
        if k == "[]": return ("a", [self.spell(t[1], x, r) for x in v])
        if k == "s": return ("o", [(n.encode(), self.spell(ft, x, r)) for (n, ft), x in zip(self.fields(t[1]), v)])
        n, at = self.alts(t[1])[v[0]]
        return ("a", [T(n), self.spell(at, v[1], r)])

    def parse(self, t, j, strict, ext=True, st=None):
        """JSON tree -> value. strict: members in order, none unknown; otherwise by name, last duplicate wins."""
        if st is None: st = {"skipped": False}
        k = t[0]
        if k == "b": return SCALARS[t[1]].parse(j)
        if k == "?": return None if j[0] == "n" else ("some", self.parse(t[1], j, strict, ext, st))
        if k == "$": return self.parse(t[1], j, strict, ext, st)
        if k == "[]":
            if j[0] != "a": raise Reject("array")
            return [self.parse(t[1], x, strict, False, st) for x in j[1]]
        if k == "s":
            if j[0] != "o": raise Reject("object")
            fs, out = self.fields(t[1]), []
            if strict:
                if [n.encode() for n, _ in fs[:len(j[1])]] != [n for n, _ in j[1]]: raise Reject("members")
                for i, ((n, ft), (_, x)) in enumerate(zip(fs, j[1])):
                    out.append(self.parse(ft, x, strict, ext and i == len(fs) - 1, st))
                for n, ft in fs[len(j[1]):]:
                    if ft[0] != "$" or not ext: raise Reject("missing")
                return out
            m = dict(j[1])
            for i, (n, ft) in enumerate(fs):
                if n.encode() not in m:
                    if ft[0] == "$" and ext:
                        st["skipped"] = True
                        continue
                    raise Reject("missing")
                if st["skipped"]: raise Reject("member after omitted extension")
                out.append(self.parse(ft, m[n.encode()], strict, ext and i == len(fs) - 1, st))
            return out
        if j[0] != "a" or len(j[1]) != 2 or j[1][0][0] != "t": raise Reject("variant")
        al = self.alts(t[1])
        for i, (n, at) in enumerate(al):
            if n.encode() == j[1][0][1]: return (i, self.parse(at, j[1][1], strict, ext, st))
        raise Reject("alternative")

    # -------------------------------------------------------------- values
    def depth(self, t, seen=frozenset()):
        """nesting depth of the shallowest value, or None if there is none"""
        k = t[0]
        if k in ("b", "?", "[]"): return 0
        if k == "$": return self.depth(t[1], seen)
        if t in seen: return None
        seen = seen | {t}
        if k == "s":
            ds = [self.depth(ft, seen) for _, ft in self.fields(t[1])]
            return None if None in ds else 1 + max(ds, default=0)
        ds = [d for d in (self.depth(at, seen) for _, at in self.alts(t[1])) if d is not None]
        return 1 + min(ds) if ds else None

    def gen(self, t, r, depth=6, ext=True, raw=False, omit=.4):
        """random value; raw: strings may hold malformed UTF-8"""
        k = t[0]
        if k == "b":
            s = SCALARS[t[1]]
            if raw and isinstance(s, (String, Float)): return s.gen_raw(r)
            return s.gen(r)
        if k == "?":
            if depth <= 0 or r.random() < .4: return None
            d = self.depth(t[1])
            return None if d is None else ("some", self.gen(t[1], r, depth - 1, ext, raw, omit))
        if k == "$": return self.gen(t[1], r, depth, ext, raw, omit)
        if k == "[]":
            d = self.depth(t[1])
            if d is None or depth <= 0: return []
            n = r.choice([0, 1, 1, 2, 3, r.randrange(6)])
            if t[1][0] == "b" and r.random() < .03: n = r.choice([127, 128, 130])
            return [self.gen(t[1], r, depth - 2, False, raw, omit) for _ in range(n)]
        if k == "s":
            fs = self.fields(t[1])
            n = len(fs)
            if ext and r.random() < omit:
                m = n
                while m and fs[m - 1][1][0] == "$": m -= 1
                n = r.randint(m, n)
            return [self.gen(ft, r, depth - 1, ext and i == len(fs) - 1, raw, omit) for i, (_, ft) in enumerate(fs[:n])]
        al = self.alts(t[1])
        ok = [(self.depth(at), i) for i, (_, at) in enumerate(al)]
        ok = [x for x in ok if x[0] is not None]
        i = r.choice(ok)[1] if depth > 0 else min(ok)[1]
        return (i, self.gen(al[i][1], r, depth - 1, ext, raw, omit))

    def lossy(self, t, v):
        """True if JSON cannot carry v exactly: NaN payloads, sub-millisecond times, malformed UTF-8"""
        k = t[0]
        if k == "b":
            s = SCALARS[t[1]]
            if isinstance(s, Float): return s.isnan(v)
            if isinstance(s, TimePoint): return v % 1000 != 0
            if isinstance(s, String):
                try: v.decode("utf-8"); return False
                except UnicodeDecodeError: return True
            return False
        if k == "?": return v is not None and self.lossy(t[1], v[1])
        if k == "$": return self.lossy(t[1], v)
        if k == "[]": return any(self.lossy(t[1], x) for x in v)
        if k == "s": return any(self.lossy(ft, x) for (_, ft), x in zip(self.fields(t[1]), v))
        return self.lossy(self.alts(t[1])[v[0]][1], v[1])

    def shape(self, t, v):
        """coarse fingerprint of a value, for counting distinct cases"""
        k = t[0]
        if k == "b": return t[1]
        if k == "?": return None if v is None else (self.shape(t[1], v[1]),)
        if k == "$": return ("$", self.shape(t[1], v))
        if k == "[]": return ["%d" % min(len(v), 4)] + [self.shape(t[1], x) for x in v[:3]]
        if k == "s": return (t[1], len(v)) + tuple(self.shape(ft, x) for (_, ft), x in zip(self.fields(t[1]), v))
        return (v[0], self.shape(self.alts(t[1])[v[0]][1], v[1]))

    # -------------------------------------------------------------- definition encodings
    def json(self, r=None): return json.dumps(self.d)

    def bin(self, ext=()):
        d = self.d
        st = lambda s: leb(len(s.encode())) + s.encode()
        vec = lambda f, l: leb(len(l)) + b"".join(f(x) for x in l)
        nm = lambda n: struct.pack("<Q", A.name_json(n.encode()))
        o = st(d["version"])
        o += vec(lambda t: st(t["new_type_name"]) + st(t["type"]), d.get("types", []))
        o += vec(lambda s: st(s["name"]) + st(s.get("base", "")) + vec(lambda f: st(f["name"]) + st(f["type"]), s.get("fields", [])), d.get("structs", []))
        o += vec(lambda a: nm(a["name"]) + st(a["type"]) + st(a.get("ricardian_contract", "")), d.get("actions", []))
        o += vec(lambda a: nm(a["name"]) + st(a.get("index_type", "")) + vec(st, a.get("key_names", [])) + vec(st, a.get("key_types", [])) + st(a["type"]), d.get("tables", []))
        o += vec(lambda c: st(c["id"]) + st(c["body"]), d.get("ricardian_clauses", []))
        o += vec(lambda e: struct.pack("<Q", e["error_code"]) + st(e["error_msg"]), d.get("error_messages", []))
        o += vec(lambda e: struct.pack("<H", e[0]) + leb(len(e[1])) + e[1], ext)
        o += vec(lambda v: st(v["name"]) + vec(st, v["types"]), d.get("variants", []))
        return o


# ------------------------------------------------------------------------------------------ random ABIs
def ident(r, used):
    while True:
        n = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABCXYZ_0123456789") for _ in range(r.choice([1, 2, 3, 5, 9])))
        if r.random() < .05: n += r.choice(["é", "::x", "<int>", ".y", " z", "\"q", "\\", "-", "?x", "[]y", "$z", "€", "\n", "\x7f\x01", "/", "\U0001f600", "w" * 150])
        if n not in used and n not in BUILTINS and not n.endswith(("?", "[]", "$")):
            used.add(n)
            return n


def member(r, used):
    """The name of a struct member: any text, unlike the name of a type."""
    while r.random() < .07:
        n = r.choice(["", "", "\0", "a\0b", "\n", "\x7f\x1f", "\"", "\\", "x?", "x[]", "x$", "int8", "name", " ", "\U0001f600", "q" * r.choice([127, 128, 300]), "__proto__", "null", "{", "0", ","])
        if n not in used:
            used.add(n)
            return n
    return ident(r, used)


def gen_abi(r, size=None, extensions=True, kinds=None, extrate=.4):
    """A random well-formed ABI whose types all have values. Returns Abi."""
    size = size or r.choice([1, 2, 3, 5, 8])
    while True:
        used = set()
        snames = [ident(r, used) for _ in range(r.randint(1, size))]
        vnames = [ident(r, used) for _ in range(r.randint(0, max(1, size // 2)))]
        anames = [ident(r, used) for _ in range(r.randint(0, max(1, size // 2)))]
        scal = kinds or BUILTINS
        def tyname(i=None):
            k = r.random()
            if k < .55: return r.choice(scal)
            return r.choice(snames + vnames + anames)
        def texpr():
            k = r.random()
            t = tyname()
            return t + ("?" if k < .2 else "[]" if k < .4 else "")
        structs, variants, types = [], [], []
        for n in anames:
            types.append({"new_type_name": n, "type": texpr()})
        for i, n in enumerate(snames):
            fu = set()
            fs = [{"name": member(r, fu), "type": texpr()} for _ in range(r.choice([0, 1, 2, 3, 3, 4, 6]))]
            base = ""
            if i and r.random() < .35: base = r.choice(snames[:i])
            structs.append({"name": n, "base": base, "fields": fs})
        for n in vnames:
            alts = []
            for _ in range(r.choice([1, 2, 2, 3, 5] + ([130] if r.random() < .02 else []))):
                t = texpr()
                if t not in alts: alts.append(t)
            variants.append({"name": n, "types": alts})
        if extensions:
            for s in structs:
                if r.random() < extrate:
                    fu = {f["name"] for f in s["fields"]}
                    for _ in range(r.choice([1, 1, 2, 3])):
                        s["fields"].append({"name": member(r, fu), "type": texpr() + "$"})
        r.shuffle(types); r.shuffle(structs); r.shuffle(variants)
        act = lambda: "".join(r.choice("abcdefghijklmnopqrstuvwxyz12345") for _ in range(r.randrange(1, 12)))
        d = {"version": r.choice(["eosio::abi/1.0", "eosio::abi/1.1", "eosio::abi/1.2"]), "types": types, "structs": structs,
             "actions": [{"name": act(), "type": r.choice(snames), "ricardian_contract": r.choice(["", "text \"q\" é"])} for _ in range(r.randrange(3))],
             "tables": [{"name": act(), "index_type": r.choice(["i64", ""]), "key_names": ["k"] * r.randrange(2), "key_types": ["uint64"] * r.randrange(2), "type": r.choice(snames)} for _ in range(r.randrange(3))],
             "ricardian_clauses": [{"id": "c", "body": "b"}] * r.randrange(2), "error_messages": [{"error_code": r.getrandbits(64), "error_msg": "e"}] * r.randrange(2),
             "abi_extensions": [], "variants": variants}
        a = Abi(d)
        try:
            a.validate()
            ts = [("s", n) for n in snames] + [("v", n) for n in vnames]
            if any(a.depth(t) is None for t in ts): continue
            # member names distinct through bases; extensions only where nothing but extensions follows, none of them possibly empty
            bad = False
            for n in snames:
                fs = a.fields(n)
                if len({x for x, _ in fs}) != len(fs): bad = True
                seen = False
                for _, ft in fs:
                    if ft[0] == "$":
                        seen = True
                        if not nonempty(a, ft[1]): bad = True
                    elif seen: bad = True
            if bad: continue
        except BadAbi:
            continue
        return a


def nonempty(a, t, seen=frozenset()):
    """every value of t has at least one byte"""
    k = t[0]
    if k == "s":
        if t in seen: return False
        return any(ft[0] != "$" and nonempty(a, ft, seen | {t}) for _, ft in a.fields(t[1]))
    if k == "$": return nonempty(a, t[1], seen)
    return True


def usable_types(a):
    """type expressions of interest with their resolved form"""
    out = [(n, ("s", n)) for n in a.structs] + [(n, ("v", n)) for n in a.variants]
    for n in a.aliases: out.append((n, a.canon(n)))
    more = []
    for n, t in out:
        if t[0] not in ("?", "[]", "$") and a.depth(t) is not None:
            more += [(n + "?", ("?", t)), (n + "[]", ("[]", t))]
    return [x for x in out if a.depth(x[1]) is not None] + more
