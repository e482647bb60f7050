"""Independent definitions of the scalar algorithms (names, hashes, base-58, decimals, civil time)."""
import struct

M64 = (1 << 64) - 1
# ---------------------------------------------------------------- names
CH = ".12345abcdefghijklmnopqrstuvwxyz"


def name_text(v):
    s = ""
    for i in range(12):
        s += CH[(v >> (59 - 5 * i)) & 31]
    s += CH[v & 15]
    return s.rstrip(".")


def name_strict(t):
    """bytes -> value, or None when not a valid name text."""
    if len(t) > 13: return None
    v = 0
    for i, c in enumerate(t):
        k = CH.find(chr(c))
        if k < 0: return None
        if i < 12: v |= k << (59 - 5 * i)
        else:
            if k > 15: return None
            v |= k
    return v


def name_lenient(t):
    v = 0
    for i, c in enumerate(t[:13]):
        k = CH.find(chr(c))
        if k < 0: k = 0
        v |= (k << (59 - 5 * i)) if i < 12 else (k & 15)
    return v


def _mix(v): return v ^ (v >> 47)


def murmur(b, seed=0xbadd00d00):
    """The 64-bit hash of the deployed library: MurmurHash64's rounds over its own word loading."""
    mul = 0xc6a4a7935bd1e995
    n = len(b)
    h = seed ^ (n * mul & M64)
    k = n & ~7
    for i in range(0, k, 8):
        w = 0
        for c in b[i:i + 8]:  # signed characters, shifted after each
            w |= c | (M64 ^ 0xff) if c >= 128 else c
            w = (w << 8) & M64
        d = _mix(w * mul & M64) * mul & M64
        h = (h ^ d) * mul & M64
    if n & 7:
        h = (h ^ int.from_bytes(b[k:], "little")) * mul & M64
    h = _mix(h) * mul & M64
    return _mix(h)


def name_json(t):
    v = name_strict(t)
    return murmur(t) if v is None else v


# ---------------------------------------------------------------- RIPEMD-160 (from the 1996 specification)
_R1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
       3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
       4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]
_R2 = [5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
       15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
       12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]
_S1 = [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
       11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
       9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]
_S2 = [8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
       9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
       8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]
_K1 = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
_K2 = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
M32 = 0xffffffff


def _f(j, x, y, z):
    if j == 0: return x ^ y ^ z
    if j == 1: return (x & y) | (~x & z)
    if j == 2: return (x | ~y) ^ z
    if j == 3: return (x & z) | (y & ~z)
    return x ^ (y | ~z)


def _rol(x, n):
    x &= M32
    return ((x << n) | (x >> (32 - n))) & M32


def ripemd160(msg):
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]
    m = msg + b"\x80"
    m += b"\0" * ((56 - len(m)) % 64) + struct.pack("<Q", 8 * len(msg))
    for o in range(0, len(m), 64):
        X = struct.unpack("<16I", m[o:o + 64])
        a, b, c, d, e = h
        A, B, C, D, E = h
        for j in range(80):
            t = (_rol(a + _f(j // 16, b, c, d) + X[_R1[j]] + _K1[j // 16], _S1[j]) + e) & M32
            a, e, d, c, b = e, d, _rol(c, 10), b, t
            t = (_rol(A + _f(4 - j // 16, B, C, D) + X[_R2[j]] + _K2[j // 16], _S2[j]) + E) & M32
            A, E, D, C, B = E, D, _rol(C, 10), B, t
        h = [(h[1] + c + D) & M32, (h[2] + d + E) & M32, (h[3] + e + A) & M32, (h[4] + a + B) & M32, (h[0] + b + C) & M32]
    return struct.pack("<5I", *h)


assert ripemd160(b"").hex() == "9c1185a5c5e9fc54612808977ee8f548b2258d31"
assert ripemd160(b"a" * 1000).hex() == "aa69deee9a8922e92f8105e007f76110f381e9cf"
assert ripemd160(b"message digest").hex() == "5d0689ef49d2fae572b881b123a85ffa21595f36"

# ---------------------------------------------------------------- base-58
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58e(b):
    n = int.from_bytes(b, "big")
    s = ""
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def b58d(t):
    """bytes/str -> bytes, or None"""
    if isinstance(t, bytes): t = t.decode("latin-1")
    n = 0
    for c in t:
        k = B58.find(c)
        if k < 0: return None
        n = n * 58 + k
    z = len(t) - len(t.lstrip("1"))
    return b"\0" * z + n.to_bytes((n.bit_length() + 7) // 8, "big")


# ---------------------------------------------------------------- keys: (kind, curve tag, payload)
KINDS = {"public_key": ("PUB", 3), "private_key": ("PVT", 2), "signature": ("SIG", 3)}
CURVES = ["K1", "R1", "WA"]


def key_text(kind, tag, payload):
    c = CURVES[tag]
    return "%s_%s_%s" % (KINDS[kind][0], c, b58e(payload + ripemd160(payload + c.encode())[:4]))


def key_legacy_text(payload):
    return "EOS" + b58e(payload + ripemd160(payload)[:4])


def sha256d(b):
    import hashlib
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def key_wif(payload, compressed=False):
    b = b"\x80" + payload + (b"\1" if compressed else b"")
    return b58e(b + sha256d(b)[:4])


# ---------------------------------------------------------------- assets and symbols
def code_text(c):
    return b"".join(bytes([(c >> (8 * i)) & 255]) for i in range(8) if c >> (8 * i)).decode("latin-1")


def code_value(t):
    return int.from_bytes(t.encode("latin-1"), "little")


def symbol_text(s): return "%d,%s" % (s & 255, code_text(s >> 8))


def asset_text(amount, sym):
    p = sym & 255
    d = str(abs(amount))
    if p:
        d = d.rjust(p + 1, "0")
        d = d[:-p] + "." + d[-p:]
    return ("-" if amount < 0 else "") + d + " " + code_text(sym >> 8)


# ---------------------------------------------------------------- proleptic Gregorian calendar
def civil(days):
    """days since 1970-01-01 -> (y, m, d), by counting 400-year cycles from 0000-03-01."""
    import datetime
    y400, r = divmod(days, 146097)
    d = datetime.date.fromordinal(datetime.date(2000, 1, 1).toordinal() + (r + 0) - (datetime.date(2000, 1, 1) - datetime.date(1970, 1, 1)).days)
    return d.year + 400 * y400, d.month, d.day


def days_of(y, m, d):
    import datetime
    q = (y - 1600) // 400
    return (datetime.date(y - 400 * q, m, d) - datetime.date(1970, 1, 1)).days + 146097 * q


def days_in_month(y, m):
    if m == 2: return 29 if (y % 4 == 0 and (y % 100 or y % 400 == 0)) else 28
    return 30 if m in (4, 6, 9, 11) else 31


def time_text(us):
    """microseconds since 1970 -> text with milliseconds (truncated down)."""
    days, r = divmod(us, 86400 * 10**6)
    y, m, d = civil(days)
    ms = r // 1000
    return "%04d-%02d-%02dT%02d:%02d:%02d.%03d" % (y, m, d, ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


assert time_text(0) == "1970-01-01T00:00:00.000" and time_text(951782400 * 10**6) == "2000-02-29T00:00:00.000"
EPOCH_2000_MS = 946684800000


# ---------------------------------------------------------------- text output
def utf8_repair(b):
    """Valid UTF-8 characters stay, every other byte becomes '?'."""
    out, i = [], 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                out.append(b[i:i + n].decode("utf-8"))
                i += n
                break
            except UnicodeDecodeError:
                pass
        else:
            out.append("?")
            i += 1
    return "".join(out)
