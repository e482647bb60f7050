"""Compiled types against ABI types of the same name, and ABIs derived from generated structs against compiled serialisation."""
import random
from lib import native, progen
from lib.build import build
from lib.check import Check
from lib.plan import Plan
from ref import abi as R
from . import dyn
from .c01 import NASTY, hostile_json, hostile_bin

CONTAINERS = {"string[]": ("[]", ("b", "string")), "int16[]": ("[]", ("b", "int16")), "uint64?": ("?", ("b", "uint64")), "asset[]": ("[]", ("b", "asset"))}


def differential(c):
    r, p = c.rng, Plan(c, build("vh"))
    a = dyn.BUILTIN_ABI
    types = {n: dyn.builtin_t(n) for n in R.BUILTINS}
    types.update(CONTAINERS)

    def pair(s, name, what, nat, dynop, data):
        """both interfaces on the same input; nat gives (bytes, JSON, formatted JSON)"""
        if name == "int16[]" and nat == "nb" and len(data) > 4 and min(data[:4]) > 127: return  # (arrays of plain numbers also take 64-bit lengths)
        st = {}
        def one(q): st["n"] = q
        def two(q):
            n = st["n"]
            if n.ok != q.ok: return (name + ":" + what, "the compiled type: %r; the ABI type: %r" % (n, q))
            if n.ok and q.f[0] != n.f[0 if dynop != "b2j" else 1]: return (name + ":" + what + ":value", "the compiled type: %r; the ABI type: %r" % (n, q))
        c.count((name, what, data), what + " of one input")
        s.add(one, nat, name, data)
        s.add(two, dynop, 1, 1, name, data)
        # and on the other side of the conversion
        return st

    for n, t in types.items():
        for part in range(2):
            s = p.script()
            dyn.setup(s, a)
            for i in range(c.n(150, 3000)):
                v = a.gen(t, r, raw=n not in CONTAINERS)
                b = a.enc(t, v)
                pair(s, n, "binary", "nb", "b2j", b)
                if R_ok(a, t, v):
                    tree = a.out(t, v)
                    for o in ("j2b", "j2r"): pair(s, n, "JSON", "nj", o, R.jwrite(tree))
                    if n != "extended_asset":
                        for _ in range(3):
                            h = hostile_json(r, R.jwrite(a.spell(t, v, r)))
                            if b"\0" in h: continue  # (text ends at the first NUL in both)
                            if len(h) < 5000: pair(s, n, "hostile JSON", "nj", r.choice(["j2b", "j2r"]), h)
                        bad = leaf_bad(t, r)
                        for x in bad: pair(s, n, "wrong JSON", "nj", r.choice(["j2b", "j2r"]), R.jwrite(x))
                for _ in range(3): pair(s, n, "hostile binary", "nb", "b2j", hostile_bin(r, b))
            if n != "extended_asset":
                for x in NASTY:
                    if len(x) < 5000: pair(s, n, "nasty JSON", "nj", r.choice(["j2b", "j2r"]), x)
    p.run()


def leaf_bad(t, r):
    if t[0] != "b": return []
    try: return R.SCALARS[t[1]].bad(r)
    except (AttributeError, KeyError): return []


def R_ok(a, t, v):
    try: a.out(t, v)
    except (R.Unspec, R.Reject): return False
    return True


PRIMS = ["bool", "int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "__int128", "unsigned __int128", "float", "double", "std::string"]
OBJS = ["eosio::name", "eosio::varuint32", "eosio::varint32", "eosio::time_point", "eosio::time_point_sec", "eosio::block_timestamp", "eosio::symbol", "eosio::symbol_code", "eosio::asset", "eosio::extended_asset"]


def member(r):
    """a member type that an ABI can be derived from"""
    k = r.random()
    if k < .3: return r.choice(PRIMS)
    if k < .5: return r.choice(OBJS)
    if k < .65: return "std::vector<%s>" % r.choice(PRIMS[1:])
    if k < .8: return "std::optional<%s>" % r.choice(PRIMS)
    alts = []
    for _ in range(r.choice([1, 2, 2, 3, 5, 8])):
        t = r.choice(PRIMS)
        if r.random() < .25 and t != "bool": t = r.choice(["std::vector<%s>", "std::optional<%s>"]) % t
        if t not in alts: alts.append(t)
    return variant(alts)


def variant(alts): return "std::variant<%s>" % ", ".join(alts)


def near(r, t):
    """a variant that differs from the given one in a single point"""
    alts = t[len("std::variant<"):-1].split(", ")
    i = r.randrange(len(alts))
    a, k = alts[i], r.random()
    inner = a[a.index("<") + 1:-1] if "<" in a else a
    if k < .6: new = r.choice([x for x in (inner, "std::vector<%s>" % inner, "std::optional<%s>" % inner) if x != a and not (x == "std::vector<bool>")])
    elif k < .7: new = r.choice(PRIMS)
    elif k < .8 and len(alts) > 1: return variant(alts[:i] + alts[i + 1:])
    elif k < .9 and len(alts) > 1:
        j = (i + 1) % len(alts)
        alts[i], alts[j] = alts[j], alts[i]
        return variant(alts)
    else:
        new = r.choice(PRIMS)
        return variant(alts + [new]) if new not in alts else t
    return t if new in alts else variant(alts[:i] + [new] + alts[i + 1:])


def program(r, count):
    """structs S<k> (some deriving, some nested, some ending in extensions) and the checks on each"""
    out, body, made = [], [], []
    for k in range(count):
        base = r.choice([m for m in made if not m[1]]) if any(not m[1] for m in made) and r.random() < .3 else None
        taken = set(base[2]) if base else set()
        names = [n for n in r.sample(progen.NAMES, r.randrange(0 if r.random() < .1 else 1, 8)) if n not in taken]
        ms = []
        for n in names:
            t = member(r)
            if r.random() < .2 and any(not m[1] for m in made): t = r.choice([m for m in made if not m[1]])[0]
            if r.random() < .3 and any(m[0].startswith("std::variant<") for m in ms): t = near(r, r.choice([m[0] for m in ms if m[0].startswith("std::variant<")]))
            ms.append((t, n))
        ext = r.randrange(1, min(3, len(ms)) + 1) if ms and r.random() < .2 else 0
        decl = [("eosio::might_not_exist<%s>" % t if i >= len(ms) - ext else t, n) for i, (t, n) in enumerate(ms)]
        name = "S%d" % k
        out.append("struct %s%s { %s auto own() { return std::tie(%s); } auto all() { return %s; } };\n" % (
            name, " : " + base[0] if base else "", " ".join("%s %s{};" % d for d in r.sample(decl, len(decl))),
            ", ".join(n + (".value" if i >= len(ms) - ext else "") for i, (_, n) in enumerate(ms)), "std::tuple_cat(%s::all(), own())" % base[0] if base else "own()"))
        out.append("EOSIO_REFLECT(%s)\n" % ", ".join([name] + (["base " + base[0]] if base else []) + [n for _, n in ms]))
        made.append((name, ext, sorted(taken | set(names))))
        body.append('one<%s, %d>("%s");' % (name, ext, name))
    text = """#define NAT_MAIN
#include "nat_types.hpp"
using namespace nat;
namespace g {
%s
eosio::abi empty() {
    eosio::abi a;
    eosio::abi_def d{};
    d.version = "eosio::abi/1.0";
    eosio::convert(d, a);
    return a;
}
template <typename T> T back(const std::string& bin, bool& ok) {
    T v{};
    buffer b(bin);
    eosio::input_stream s(b.begin(), bin.size());
    try { from_bin(v, s); ok = !s.remaining(); } catch (const std::exception&) { ok = false; }
    return v;
}
template <typename T> T parsed(const std::string& json) {
    T v{};
    std::string copy = json;
    eosio::json_token_stream s(copy.data());
    eosio::from_json(v, s);
    return v;
}
std::string to_json(const eosio::abi_type* t, const std::string& bin, bool& ok) {
    buffer b(bin);
    eosio::input_stream s(b.begin(), bin.size());
    std::string r;
    try { r = t->bin_to_json(s); ok = !s.remaining(); } catch (const std::exception&) { ok = false; }
    return r;
}
template <typename T, int ext> void one(const char* name) {
    static std::vector<std::unique_ptr<eosio::abi>> abis = [] {
        std::vector<std::unique_ptr<eosio::abi>> l;
        auto e = std::make_unique<eosio::abi>(empty());
        e->add_type<T>();
        e->add_type<T>(); // no effect
        eosio::abi_def d{};
        eosio::convert(*e, d);
        l.push_back(std::move(e));
        // the exported definition describes the same type
        auto bin = eosio::convert_to_bin(d);
        eosio::input_stream s(bin.data(), bin.size());
        eosio::abi_def d2{};
        from_bin(d2, s);
        auto again = std::make_unique<eosio::abi>();
        eosio::convert(d2, *again);
        l.push_back(std::move(again));
        return l;
    }();
    opts o;
    o.json = true;
    o.nan = false;
    T v = gen<T>(o);
    std::string w = enc(v), bin = str(eosio::convert_to_bin(v));
    current = std::string(name) + " " + hex(bin);
    seen("values of generated structs", hash(w + name));
    if (w != bin) violate(std::string(name) + " compiled", std::string(name) + ": compiled serialisation gives " + hex(bin) + ", should be " + hex(w));
    for (auto& a : abis) {
        const char* which = a == abis[0] ? "derived" : "exported";
        auto t = a->get_type(name);
        auto fail = [&](const char* what, const std::string& s) { violate(std::string(which) + ":" + what, std::string(name) + " through the " + which + " ABI, " + what + ": " + s + ": " + hex(w)); };
        bool ok;
        std::string j = to_json(t, w, ok);
        auto differ = [&](const char* what, const std::string& got) {
            if (got == w) return;
            size_t i = 0;
            while (i < got.size() && i < w.size() && got[i] == w[i]) ++i;
            size_t from = i < 16 ? 0 : i - 16;
            fail(what, j.substr(0, 500) + " gives at byte " + std::to_string(i) + ": ..." + hex(got.substr(from, 32)) + ", should be ..." + hex(w.substr(from, 32)));
        };

        seen("binary to JSON", hash(w + name));
        if (!ok) { fail("binary to JSON", "not decoded"); continue; }
        if constexpr (!ext) { if (auto n = eosio::convert_to_json(v); n != j) fail("JSON", n + " compiled, " + j + " through the ABI"); }
        auto err = reports([&] {
            auto b = t->json_to_bin(j), b2 = t->json_to_bin_reorderable(j);
            seen("JSON to binary", hash(w + name));
            differ("JSON to binary", str(b));
            differ("reorderable JSON to binary", str(b2));
            auto c = str(eosio::convert_to_bin(parsed<T>(j)));
            differ("compiled JSON to binary", c);
        });
        if (err) fail("JSON refused", j + ": " + *err);
        // damaged encodings
        for (int k = 0; k < 3; ++k) {
            std::string m = w;
            if (m.empty() || k == 0) m = m.substr(0, rng.below(m.size() + 1));
            else if (k == 1) m += char(rng.next());
            else { auto& c = m[rng.below(m.size())]; c = rng.one_in(2) ? char(rng.next()) : char(rng.below(3)); }
            bool n, d;
            T x = back<T>(m, n);
            std::string dj = to_json(t, m, d);
            seen("damaged encodings", hash(m + name));
            if (n != d) { fail("damaged encoding", hex(m) + (n ? " is accepted by the compiled type only" : " is accepted by the ABI only")); continue; }
            if constexpr (!ext) if (n) {
                std::string nj;
                auto e = reports([&] { nj = eosio::convert_to_json(x); });
                if (e || nj != dj) fail("damaged encoding", hex(m) + " is " + (e ? *e : nj) + " compiled and " + dj + " through the ABI");
            }
        }
    }
}
""" % "".join(out)
    fns = ["void part%d() {\n    %s\n}\n" % (i // 10, "\n    ".join(body[i:i + 10])) for i in range(0, len(body), 10)]
    text += "".join(fns) + "} // namespace g\nvoid nat::run(u64 cases, bool) {\n    for (u64 k = 0; k < cases; ++k) {\n%s    }\n}\n" % "".join("        g::part%d();\n" % i for i in range(len(fns)))
    return text


def run():
    c = Check("C09", "a case is one JSON text or byte string (valid, respelled, damaged or random) converted through a compiled type and through the ABI type of that name, or one value of a generated "
              "reflected struct converted through the compiled code and through the ABI derived from the struct; distinct by type and input")
    differential(c)
    files = [("derive%d" % i, progen.write("derive_%d.cpp" % i, program(random.Random("%d derive %d" % (c.seed, i)), 16))) for i in range(c.n(5, 20))]
    native.run_many(c, files, c.n(200, 4000))
    return c.finish(5000)
