// The six relational operators against an independent three-way comparison.
#pragma once
#include "nat_types.hpp"
using namespace nat;

#define HAS(NAME, OP) template <typename A, typename B, typename = void> struct NAME : std::false_type {}; \
    template <typename A, typename B> struct NAME<A, B, std::void_t<decltype(std::declval<const A&>() OP std::declval<const B&>())>> : std::true_type {};
HAS(has_eq, ==) HAS(has_ne, !=) HAS(has_lt, <) HAS(has_gt, >) HAS(has_le, <=) HAS(has_ge, >=)

inline std::map<std::string, int> missing;

// want: three-way result for a and b
template <bool all, typename A, typename B>
void ops(const char* name, const A& a, const B& b, int want, const std::function<std::string()>& show) {
    auto one = [&](const char* op, bool got, bool should) {
        seen(want ? "different values" : "equal values", hash(op, strlen(op), hash(name, strlen(name), hash(show()))));
        if (got != should) violate(std::string(op) + " " + name, std::string(name) + ": " + show() + ": operator" + op + " gives " + (got ? "true" : "false"));
    };
#define JUDGE(H, OP) if constexpr (all || H<A, B>::value) one(#OP, a OP b, want OP 0); else ++missing[std::string(name) + " " #OP];
    JUDGE(has_eq, ==) JUDGE(has_ne, !=) JUDGE(has_lt, <) JUDGE(has_gt, >) JUDGE(has_le, <=) JUDGE(has_ge, >=)
}
template <typename T, bool all = true>
void total(const char* name) {
    opts o;
    o.nan = false;
    std::deque<T> v;
    v.push_back(gen<T>(o));
    v.push_back(v[0]);
    for (int i = 0; i < 3; ++i) v.push_back(rng.below(4) ? vary(v[rng.below(v.size())], o) : gen<T>(o));
    for (auto& a : v)
        for (auto& b : v)
            ops<all>(name, a, b, cmp<T>(a, b), [&] { return hex(enc(a)) + " and " + hex(enc(b)); });
}
#define T(...) total<__VA_ARGS__>(#__VA_ARGS__)

namespace nt {
// reflected types of other shapes
struct lone { int64_t v = 0; auto all() { return std::tie(v); } };
EOSIO_REFLECT(lone, v)
EOSIO_COMPARE(lone);
struct pairs { uint8_t a = 0, b = 0; auto all() { return std::tie(a, b); } };
EOSIO_REFLECT(pairs, a, b)
EOSIO_COMPARE(pairs);
struct bare : pairs { auto all() { return std::tie(a, b); } };
EOSIO_REFLECT(bare, base pairs)
EOSIO_COMPARE(bare);
template <typename A> struct tmpl { A x{}; lone y; auto all() { return std::tie(x, y); } };
template <typename A, typename F> void eosio_for_each_field(tmpl<A>*, F&& f) {
    f("x", [](auto* p) -> decltype(&std::decay_t<decltype(*p)>::x) { return &std::decay_t<decltype(*p)>::x; });
    f("y", [](auto* p) -> decltype(&std::decay_t<decltype(*p)>::y) { return &std::decay_t<decltype(*p)>::y; });
}
template <typename A> EOSIO_COMPARE(tmpl<A>);
struct deep { one a; bare b; std::vector<pairs> c; std::optional<lone> d; std::pair<lone, one> e; std::map<uint8_t, pairs> f; std::variant<lone, pairs, std::string> g; std::array<pairs, 2> h; std::tuple<one, lone> i;
    auto all() { return std::tie(a, b, c, d, e, f, g, h, i); } };
EOSIO_REFLECT(deep, a, b, c, d, e, f, g, h, i)
EOSIO_COMPARE(deep);
} // namespace nt
void part_a(); void part_b(); void part_c();
