// A variant with more alternatives than one index byte can name.
// At O1 the compiler takes minutes over the 131 alternatives.
#pragma GCC optimize("O0")
#include "nat_round.hpp"

namespace nt {
template <int I> struct tag { uint16_t v = 0; auto all() { return std::tie(v); } };
template <int I> struct tag_name { static constexpr char text[] = {'t', char('0' + I / 100), char('0' + I / 10 % 10), char('0' + I % 10), 0}; };
template <int I> constexpr const char* get_type_name(tag<I>*) { return tag_name<I>::text; }
template <int I, typename F> constexpr void eosio_for_each_field(tag<I>*, F f) { f("v", [](auto p) -> decltype(&std::decay_t<decltype(*p)>::v) { return &std::decay_t<decltype(*p)>::v; }); }
template <typename S> struct many_of;
template <int... I> struct many_of<std::integer_sequence<int, I...>> { using type = std::variant<tag<I>...>; };
using many = many_of<std::make_integer_sequence<int, 131>>::type;
} // namespace nt

// 131 alternatives, written out by index (the general helpers would take the compiler too long)
inline uint16_t& inner(nt::many& m) { return std::visit([](auto& x) -> uint16_t& { return x.v; }, m); }
template <int I> void put(nt::many& m, uint16_t v) { m.emplace<I>(); std::get<I>(m).v = v; }
template <int... I> nt::many make(size_t k, uint16_t v, std::integer_sequence<int, I...>) {
    static constexpr void (*fill[])(nt::many&, uint16_t) = {put<I>...};
    nt::many m;
    fill[k](m, v);
    return m;
}
void check_many(size_t k) {
    auto all = std::make_integer_sequence<int, 131>{};
    uint16_t v = gen_int<uint16_t>();
    nt::many m = make(k, v, all);
    std::string e;
    leb(k, e);
    enc<uint16_t>(v, e);
    auto b = eosio::convert_to_bin(m);
    std::string what = "alternative " + std::to_string(k) + " of 131";
    seen("alternatives of a large variant", hash(e));
    if (str(b) != e) violate("encode many", what + " is encoded as " + hex(b) + ", should be " + hex(e));
    std::string text = eosio::convert_to_json(m), num = std::to_string(k);
    std::string want = "[\"t" + std::string(3 - num.size(), '0') + num + "\",{\"v\":" + std::to_string(v) + "}]";
    if (text != want) violate("many to json", what + " becomes " + text + ", should be " + want);
    for (int mode = 0; mode < 4; ++mode) {
        nt::many w = make(mode & 1 ? rng.below(131) : 0, 99, all);
        buffer in(e + "z");
        eosio::input_stream s(in.begin(), in.n);
        std::string t = want;
        auto err = reports([&] {
            if (mode < 2) eosio::from_bin(w, s);
            else { eosio::json_token_stream j(t.data()); eosio::from_json(w, j); j.get_end(); }
        });
        std::string how = what + (mode < 2 ? " from " + hex(e) : " from " + want);
        if (err) violate("decode many", how + ": " + *err);
        else if (w.index() != k || inner(w) != v) violate("value many", how + " becomes alternative " + std::to_string(w.index()) + " with " + std::to_string(inner(w)));
        else if (mode < 2 && s.remaining() != 1) violate("consumed many", how + ": " + std::to_string(s.remaining()) + " of 1 following byte left");
    }
    for (size_t bad : {size_t(131), size_t(141), size_t(255), size_t(256), 256 + k, 16384 + k, 65536 + k}) {
        std::string x;
        leb(bad, x);
        x += "ab";
        buffer in(x);
        eosio::input_stream s(in.begin(), in.n);
        nt::many w;
        if (!reports([&] { eosio::from_bin(w, s); })) violate("bad alternative of many", "alternative " + std::to_string(bad) + " of 131 is accepted");
    }
}

// values that refer to the input instead of holding it
namespace nt {
struct views { std::string_view a; uint16_t n = 0; eosio::input_stream b; std::vector<std::string_view> c; };
EOSIO_REFLECT(views, a, n, b, c)
} // namespace nt
void check_views() {
    auto word = [] { std::string s; for (u64 k = rng.one_in(6) ? 120 + rng.below(20) : rng.below(9); k--;) s += char(rng.next()); return s; };
    std::string a = word(), b = word(), e;
    std::vector<std::string> c(rng.below(4));
    for (auto& x : c) x = word();
    uint16_t n = uint16_t(rng.next());
    auto add = [&](const std::string& x) { leb(x.size(), e); e += x; };
    add(a); e += char(n); e += char(n >> 8); add(b); leb(c.size(), e);
    for (auto& x : c) add(x);
    nt::views v{a, n, eosio::input_stream(b.data(), b.size()), {c.begin(), c.end()}};
    auto out = eosio::convert_to_bin(v);
    seen("views", hash(e));
    if (str(out) != e) violate("encode views", "views of " + hex(e) + " encode as " + hex(str(out)));
    for (size_t cut = 0; cut <= e.size(); cut += 1 + (e.size() > 30 && cut + 9 < e.size() ? rng.below(8) : 0)) {
        buffer in(e.substr(0, cut));
        eosio::input_stream s(in.begin(), in.n);
        nt::views w;
        if (rng.one_in(2)) w = v;
        auto err = reports([&] { eosio::from_bin(w, s); });
        if (cut < e.size()) { if (!err) violate("truncated views", std::to_string(cut) + " of the bytes " + hex(e) + " decode without an error"); continue; }
        if (err) { violate("decode views", hex(e) + ": " + *err); continue; }
        bool same = w.a == a && w.n == n && std::string_view(w.b.pos, w.b.end - w.b.pos) == b && w.c.size() == c.size();
        for (size_t i = 0; same && i < c.size(); ++i) same = w.c[i] == c[i];
        if (!same) violate("value views", hex(e) + " decodes to other views");
        if (s.remaining()) violate("consumed views", hex(e) + " is not used up");
    }
    std::string plain;
    for (u64 k = rng.below(20); k--;) plain += char('a' + rng.below(26));
    std::string text = eosio::convert_to_json(std::string_view(plain));
    if (text != "\"" + plain + "\"") violate("json view", "the view of " + plain + " is written as " + text);
    std::string_view back;
    auto err = reports([&] { eosio::json_token_stream j(text.data()); eosio::from_json(back, j); j.get_end(); });
    if (err || back != plain) violate("json view", "the text " + plain + " is not read as a view");
}

void part_e(nat::u64 i) {
    for (size_t k = 0; k < 131; k += 1 + (i ? rng.below(20) : 0)) check_many(k);
    check_views();
}
