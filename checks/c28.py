"""Conversion between generated pairs of reflected structs."""
from lib import native, progen
from lib.check import Check
from lib.progen import Struct, leaf, NAMES


def gen_pair(r, k, pairs, out):
    """writes structs S<k>, D<k> sharing some members, and the expected effect of converting, as C++ statements"""
    names = r.sample(NAMES, r.randrange(1, 9))
    mode = r.choice(["narrow", "narrow", "narrow", "strict", "widen", "narrow-rev", "widen-rev"])
    src, dst, common = [], [], []
    for n in names:
        w = r.random()
        both = w < .55 or mode == "strict"
        if not both and mode in ("widen", "widen-rev"): w = .9  # every source member exists in the destination
        if both:
            nest = [p for p in pairs if p[1] < 3 and p[0] != k]
            if nest and r.random() < .4:
                p = r.choice(nest)
                wrap = r.choice(["%s", "%s", "std::vector<%s>", "std::optional<%s>", "std::vector<std::optional<%s>>", "std::optional<std::vector<%s>>"])
                src.append((n, wrap % ("S%d" % p[0])))
                dst.append((n, wrap % ("D%d" % p[0])))
                common.append((n, wrap, p[0]))
            else:
                t = leaf(r)
                src.append((n, t)); dst.append((n, t)); common.append((n, None, None))
        elif w < .78: src.append((n, leaf(r)))
        else: dst.append((n, leaf(r)))
    lv = 1 + max([p[1] for p in pairs if any(c[2] == p[0] for c in common)], default=0)
    r.shuffle(src); r.shuffle(dst)

    def make(name, ms):
        base = None
        if len(ms) > 1 and r.random() < .35:
            i = r.randrange(1, len(ms))
            base = Struct(name + "b", ms[:i])
            out.append(base.cpp(r.sample(base.members, len(base.members))))
            ms = ms[i:]
        s = Struct(name, ms, base)
        out.append(s.cpp(r.sample(ms, len(ms))))
        return s
    s, d = make("S%d" % k, src), make("D%d" % k, dst)
    kind = {"narrow": ("narrowing", 0), "strict": ("strict", 0), "widen": ("widening", 0), "narrow-rev": ("widening", 1), "widen-rev": ("narrowing", 1)}[mode]
    if mode == "strict" and r.random() < .5: kind = ("strict", 1)
    args = ("S%d, D%d" if not kind[1] else "D%d, S%d") % (k, k)
    out.append("eosio::%s_conversion conversion_kind(%s);\n" % (kind[0], args))
    # the effect: after(dst before, src) -> expected dst
    out.append("inline void effect(const S%d& s, D%d& d) { %s }\n" % (k, k, " ".join("effect(s.%s, d.%s);" % (n, n) for n, _, _ in common)))
    second = not mode.startswith("widen") and all(p[6] for p in pairs if any(c[2] == p[0] for c in common))
    return (k, lv, mode, len(common), len(src), len(dst), second)


def program(r, count):
    out = ['''#define NAT_MAIN
#include <eosio/convert.hpp>
#include <eosio/for_each_field.hpp>
#include "nat_gen.hpp"
using namespace nat;
namespace g {
// the expected effect: same type - copied; struct pairs - by name; optionals and vectors - by element, new elements from default values
template <typename T> struct part { static constexpr int kind = 0; };
template <typename T> struct part<std::vector<T>> { static constexpr int kind = 1; };
template <typename T> struct part<std::optional<T>> { static constexpr int kind = 2; };
template <typename A, typename B> auto effect(const A& s, B& d) -> std::enable_if_t<std::is_same_v<A, B> || part<A>::kind> {
    if constexpr (std::is_same_v<A, B>) d = s;
    else if constexpr (part<A>::kind == 1) {
        d.resize(s.size());
        for (size_t i = 0; i < s.size(); ++i) effect(s[i], d[i]);
    } else if (!s) d.reset();
    else { typename B::value_type x{}; effect(*s, x); d = std::move(x); }
}
''']
    pairs = []
    for k in range(count): pairs.append(gen_pair(r, k, pairs, out))
    # several sources into one destination, through a variant
    vs = []
    for k in range(count // 5):
        ms = [(n, leaf(r)) for n in r.sample(NAMES, r.randrange(2, 6))]
        d = Struct("VD%d" % k, ms + [("tail_v", "uint32_t")])
        out.append(d.cpp(r.sample(d.members, len(d.members))))
        al = []
        for j in range(r.randrange(1, 5)):
            sub = r.sample(ms, r.randrange(0, len(ms) + 1))
            s = Struct("V%ds%d" % (k, j), sub + ([("own%d" % j, "uint16_t")] if r.random() < .5 else []))
            out.append(s.cpp())
            out.append("eosio::narrowing_conversion conversion_kind(%s, %s);\n" % (s.name, d.name))
            out.append("inline void effect(const %s& s, %s& d) { %s }\n" % (s.name, d.name, " ".join("d.%s = s.%s;" % (n, n) for n, _ in sub)))
            al.append(s.name)
        vs.append((k, al))
    # types that are serialized as another type
    ws = []
    for p in pairs:
        if p[4] and r.random() < .5:
            out.append("struct W%d : D%d {};\n" % (p[0], p[0]))
    out.append('''} // namespace g
using namespace g;
template <typename S, typename D, typename C> void pair(const char* what, C chooser) {
    S s{}, copy{};
    D d{}, want{}, before{};
    fill(s);
    fill(d);
    copy = s;
    want = before = d;
    effect(s, want);
    eosio::convert(s, d, chooser);
    std::string a, b, e;
    wire(a, copy); wire(b, s); wire(e, want);
    seen("conversions", hash(a + what));
    if (!same(s, copy)) violate(std::string(what) + " source", std::string(what) + ": the source was changed from " + hex(a) + " to " + hex(b));
    if (!same(d, want)) { std::string got; wire(got, d); violate(std::string(what) + " destination", std::string(what) + ": source " + hex(a) + ", expected " + hex(e) + ", got " + hex(got)); }
    // again: nothing remembered, nothing accumulated
    eosio::convert(s, d, chooser);
    seen("repeated conversions", hash(a + what));
    effect(s, want);
    if (!same(d, want)) violate(std::string(what) + " repeated", std::string(what) + ": converting again gave something else");
    // a default destination
    D f{}, fw{};
    eosio::convert(s, f, chooser);
    effect(s, fw);
    seen("conversions to a new object", hash(a + what));
    if (!same(f, fw)) violate(std::string(what) + " new", std::string(what) + ": converting into a new object gave something else, source " + hex(a));
    // to itself
    S t{};
    eosio::convert(s, t, chooser);
    if (!same(s, t)) violate(std::string(what) + " copy", std::string(what) + ": converting to the same type is no copy");
    // containers of the whole
    std::vector<S> sv(rng.below(4));
    for (auto& x : sv) fill(x);
    std::vector<D> dv(rng.below(6)), wv;
    for (auto& x : dv) fill(x);
    wv = dv;
    effect(sv, wv);
    eosio::convert(sv, dv, chooser);
    seen("converted vectors", hash(a + what) + sv.size() * 7 + dv.size());
    if (!same(dv, wv)) violate(std::string(what) + " vector", std::string(what) + ": a vector converted wrongly");
    std::optional<S> so; std::optional<D> od, ow;
    if (rng.one_in(2)) { so.emplace(); fill(*so); }
    if (rng.one_in(2)) { od.emplace(); fill(*od); }
    effect(so, ow);
    eosio::convert(so, od, chooser);
    seen("converted optionals", hash(a + what) + bool(so) * 2 + bool(od));
    if (!same(od, ow)) violate(std::string(what) + " optional", std::string(what) + ": an optional converted wrongly");
}
template <typename V, typename D> void var(const char* what) {
    V v;
    D d{}, want{};
    fill(v);
    fill(d);
    want = d;
    V copy = v;
    std::visit([&](auto& s) { effect(s, want); }, v);
    eosio::convert(v, d, eosio::choose_first);
    std::string a;
    wire(a, copy);
    seen("conversions of variants", hash(a + what) + v.index());
    if (!same(v, copy)) violate(std::string(what) + " source", std::string(what) + ": the source was changed");
    if (!same(d, want)) violate(std::string(what) + " destination", std::string(what) + ": alternative " + std::to_string(v.index()) + " converted wrongly: " + hex(a));
}
template <typename S, typename W> void as(const char* what) { // W is decoded as S, then converted
    S s{};
    fill(s);
    std::string w;
    wire(w, s);
    for (int cut = 0; cut < 2; ++cut) {
        W o{}, want{};
        fill(o);
        want = o;
        effect(s, want);
        std::string in = w + (cut ? "" : "tail");
        if (cut) { if (in.empty()) return; in.resize(rng.below(in.size())); }
        buffer b(in);
        eosio::input_stream st(b.begin(), in.size());
        auto err = reports([&] { from_bin(o, st); });
        seen("decoded through another type", hash(w + what) + cut);
        if (cut ? !err : bool(err)) violate(std::string(what) + " decode", std::string(what) + (cut ? ": decoded although its wire form is cut short" : ": not decoded: " + *err));
        if (!cut && !err && (!same(o, want) || std::string(st.pos, st.end) != "tail")) violate(std::string(what) + " decoded", std::string(what) + ": decoded wrongly from " + hex(w));
    }
}
inline void bytes_of() {
    std::string s;
    fill(s);
    buffer b(s);
    eosio::input_stream in(b.begin(), s.size());
    std::vector<char> v(rng.below(5), 'x');
    eosio::convert(in, v, eosio::choose_first);
    seen("streams copied", hash(s));
    if (std::string(v.begin(), v.end()) != s || in.remaining() != s.size()) violate("stream", "an input stream converted wrongly to bytes");
}
''')
    body = []
    # serialize_as declarations follow in namespace g
    decl = []
    for p in pairs:
        k = p[0]
        body.append('pair<S%d, D%d>("%s#%d first", eosio::choose_first);' % (k, k, p[2], k))
        if p[6]: body.append('pair<S%d, D%d>("%s#%d second", eosio::choose_second);' % (k, k, p[2], k))
    for k, al in vs: body.append('var<std::variant<%s>, VD%d>("variant#%d");' % (", ".join(al), k, k))
    text = "".join(out)
    for p in pairs:
        k = p[0]
        if ("struct W%d " % k) in text:
            text = text.replace("struct W%d : D%d {};\n" % (k, k), "")
            decl.append("S%d serialize_as(const D%d&);\n" % (k, k))
            body.append('as<S%d, D%d>("as#%d");' % (k, k, k))
    text = text.replace("} // namespace g\n", "".join(decl) + "} // namespace g\n", 1)
    fns = []
    for i in range(0, len(body), 12): fns.append("static void part%d() {\n    %s\n}\n" % (i // 12, "\n    ".join(body[i:i + 12])))
    text += "".join(fns) + "void nat::run(u64 cases, bool) {\n    for (u64 k = 0; k < cases; ++k) {\n        bytes_of();\n%s    }\n}\n" % "".join("        part%d();\n" % i for i in range(len(fns)))
    return text, pairs


def run():
    c = Check("C28", "one conversion between one pair of generated reflected structs (random subsets of shared members in random order, bases, nested pairs in vectors and optionals, variants of several sources) compared with a member-by-member copy")
    files, shapes = [], set()
    for i in range(c.n(6, 24)):
        text, pairs = program(c.rng, 16)
        files.append(progen.write("convert_%d.cpp" % i, text))
        shapes.update(p[2:] for p in pairs)
        c.note("struct pairs", len(pairs))
    native.run_many(c, [("convert%d" % i, f) for i, f in enumerate(files)], c.n(150, 3000))
    c.note("distinct pair shapes", len(shapes))
    return c.finish(30000)
