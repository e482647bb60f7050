// Binary keys: byte order of the keys against the order of the values.
#pragma once
#include "nat_types.hpp"
using namespace nat;

template <typename T>
void order(const char* name, int sets = 1) {
    opts o;
    o.nan = false;
    while (sets--) {
        std::deque<T> v;
        std::vector<std::string> k;
        v.push_back(gen<T>(o));
        for (int i = 0; i < 5; ++i) v.push_back(rng.below(3) ? vary(v[rng.below(v.size())], o) : gen<T>(o));
        for (auto& x : v) k.push_back(str(eosio::convert_to_key(x)));
        for (size_t i = 0; i < v.size(); ++i)
            for (size_t j = 0; j < i; ++j) {
                int want = cmp<T>(v[i], v[j]);
                if (want == -2) continue;
                size_t n = std::min(k[i].size(), k[j].size());
                int got = n ? memcmp(k[i].data(), k[j].data(), n) : 0;
                got = got < 0 ? -1 : got > 0 ? 1 : k[i].size() < k[j].size() ? -1 : k[i].size() > k[j].size();
                seen(want ? "different values compared" : "equal values compared", hash(k[i], hash(k[j], hash(name, strlen(name)))));
                auto what = [&] { return std::string(name) + ": values encoded as " + hex(enc(v[i])) + " and " + hex(enc(v[j])) + " have keys " + hex(k[i]) + " and " + hex(k[j]); };
                if (got != want) violate(std::string("order ") + name, what() + " which compare " + std::to_string(got) + ", the values " + std::to_string(want));
                else if (want && !memcmp(k[i].data(), k[j].data(), n)) violate(std::string("prefix ") + name, what() + ", one a prefix of the other");
            }
    }
}
#define K(...) order<__VA_ARGS__>(#__VA_ARGS__)

namespace nt {
template <typename T> struct box { T a; std::optional<T> b; std::deque<T> c; auto all() { return std::tie(a, b, c); } };
#define BOX(N, ...) struct N : box<__VA_ARGS__> {}; EOSIO_REFLECT(N, a, b, c)
BOX(bu8, uint8_t) BOX(bi8, int8_t) BOX(bb, bool) BOX(bi64, int64_t) BOX(bs, std::string) BOX(bd, double)
} // namespace nt
using var2 = std::variant<uint8_t, std::string>;
using var3 = std::variant<std::vector<uint8_t>, bool, std::optional<int8_t>, std::tuple<>, nt::one>;
// a variant with more alternatives than one key byte can number
template <size_t> using same_type = uint8_t;
template <typename T> struct wide_var;
template <size_t... I> struct wide_var<std::index_sequence<I...>> { using type = std::variant<same_type<I>...>; };
using var130 = wide_var<std::make_index_sequence<132>>::type;
template <size_t I> std::pair<u64, std::string> wide_key(uint8_t x) { return {u64(I) << 8 | x, str(eosio::convert_to_key(var130(std::in_place_index<I>, x)))}; }
inline void judge_key(const char* name, u64 a, const std::string& ka, u64 b, const std::string& kb) {
    int want = a < b ? -1 : a > b, got = ka.compare(kb);
    got = got < 0 ? -1 : got > 0;
    seen("index or length prefix compared", hash(ka, hash(kb)));
    if (want != got || (want && (ka.compare(0, kb.size(), kb) == 0 || kb.compare(0, ka.size(), ka) == 0)))
        violate(std::string("order ") + name, std::string(name) + " " + std::to_string(a) + " and " + std::to_string(b) + " have keys " + hex(ka) + " and " + hex(kb));
}
inline void wide_variants() {
    uint8_t x = rng.one_in(2) ? 0 : rng.next();
    std::pair<u64, std::string> k[] = {wide_key<0>(x), wide_key<1>(x), wide_key<63>(x), wide_key<64>(x), wide_key<126>(x), wide_key<127>(x), wide_key<128>(255), wide_key<129>(0), wide_key<131>(x)};
    for (auto& a : k) for (auto& b : k) judge_key("variant", a.first, a.second, b.first, b.second);
    for (int i = 0; i < 20; ++i) {
        uint32_t a = gen_int<uint32_t>(), b = rng.one_in(2) ? vary<uint32_t>(a, {}) : gen_int<uint32_t>();
        std::vector<char> ka, kb;
        eosio::vector_stream sa(ka), sb(kb);
        eosio::to_key_varuint32(a, sa);
        eosio::to_key_varuint32(b, sb);
        judge_key("index", a, str(ka), b, str(kb));
    }
}
void part_a();
void part_b();
void part_c();
void part_d();
