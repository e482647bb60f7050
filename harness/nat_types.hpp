// A family of value types with an independent description of their members (all()), used as the oracle for the library's reflection.
#pragma once
#include "nat.hpp"
#include <eosio/types.hpp>
#include <abieos.hpp>
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/crypto.hpp>
#include <eosio/operators.hpp>
#include <eosio/time.hpp>
#include <eosio/to_key.hpp>

namespace nt {
enum class e8 : uint8_t { a, b, c, z = 255 };
enum class s8 : int8_t { lo = -128, m = -1, zero = 0, hi = 127 };
enum class e16 : uint16_t { a, b, z = 65535 };
enum class s32 : int32_t { lo = -2147483647 - 1, m = -1, a = 0, b = 5 };
enum class s64 : int64_t { m = -1, a = 0 };

struct empty_t { auto all() { return std::tie(); } };
EOSIO_REFLECT(empty_t)
EOSIO_COMPARE(empty_t);

struct one { std::string s; auto all() { return std::tie(s); } };
EOSIO_REFLECT(one, s)
EOSIO_COMPARE(one);

struct flat {
    uint8_t a = 0; int32_t b = 0; double c = 0; std::string d; bool e = false;
    auto all() { return std::tie(a, b, c, d, e); }
};
EOSIO_REFLECT(flat, a, b, c, d, e)
EOSIO_COMPARE(flat);

struct base1 { uint16_t p = 0; std::string q; auto allb() { return std::tie(p, q); } auto all() { return allb(); } };
EOSIO_REFLECT(base1, p, q)
EOSIO_COMPARE(base1);
struct mid : base1 { std::vector<int16_t> r; auto allm() { return std::tuple_cat(allb(), std::tie(r)); } auto all() { return allm(); } };
EOSIO_REFLECT(mid, base base1, r)
EOSIO_COMPARE(mid);
struct derived : mid { int64_t t = 0; std::optional<uint32_t> u; auto all() { return std::tuple_cat(allm(), std::tie(t, u)); } };
EOSIO_REFLECT(derived, base mid, t, u)
EOSIO_COMPARE(derived);

// declaration order differs from the listed order, and one member is not listed
struct reordered {
    int32_t z = 0; uint8_t hidden = 7; std::string y; int8_t x = 0;
    auto all() { return std::tie(x, z, y); }
};
EOSIO_REFLECT(reordered, x, z, y)
EOSIO_COMPARE(reordered);

// names that are prefixes, suffixes and case variants of one another, and of the base's
struct names_base { int16_t value_id = 0, value = 0, va = 0; auto allb() { return std::tie(value_id, value, va); } auto all() { return allb(); } };
EOSIO_REFLECT(names_base, value_id, value, va)
EOSIO_COMPARE(names_base);
struct names : names_base {
    int16_t id = 0, v = 0, values = 0, Value = 0, _value = 0, value_ = 0, valu = 0, ue = 0, VALUE = 0;
    auto all() { return std::tuple_cat(allb(), std::tie(id, v, values, Value, _value, value_, valu, ue, VALUE)); }
};
EOSIO_REFLECT(names, base names_base, id, v, values, Value, _value, value_, valu, ue, VALUE)
EOSIO_COMPARE(names);

struct wide {
    uint8_t a0 = 0, a1 = 0, a2 = 0, a3 = 0, a4 = 0, a5 = 0, a6 = 0, a7 = 0, a8 = 0, a9 = 0, b0 = 0, b1 = 0, b2 = 0, b3 = 0, b4 = 0, b5 = 0, b6 = 0, b7 = 0, b8 = 0, b9 = 0, c0 = 0, c1 = 0, c2 = 0, c3 = 0, c4 = 0, c5 = 0, c6 = 0, c7 = 0, c8 = 0, c9 = 0, d0 = 0, d1 = 0, d2 = 0;
    auto all() { return std::tie(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, d0, d1, d2); }
};
EOSIO_REFLECT(wide, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9, c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, d0, d1, d2)
EOSIO_COMPARE(wide);

struct ints {
    int8_t a = 0; uint16_t b = 0; int16_t c = 0; uint32_t d = 0; uint64_t e = 0; int64_t f = 0; __int128 g = 0; unsigned __int128 h = 0; float i = 0;
    auto all() { return std::tie(a, b, c, d, e, f, g, h, i); }
};
EOSIO_REFLECT(ints, a, b, c, d, e, f, g, h, i)
EOSIO_COMPARE(ints);

struct chain {
    eosio::name n; eosio::symbol s; eosio::symbol_code c; eosio::checksum160 k; eosio::checksum256 l; eosio::checksum512 m; eosio::bytes y; eosio::time_point t; eosio::time_point_sec u;
    eosio::block_timestamp v; 
    auto all() { return std::tie(n, s, c, k, l, m, y, t, u, v); }
};
EOSIO_REFLECT(chain, n, s, c, k, l, m, y, t, u, v)
EOSIO_COMPARE(chain);

struct nested {
    flat f; std::vector<flat> v; std::optional<derived> o; std::variant<uint32_t, std::string, one> w; std::vector<std::optional<std::string>> x; derived d;
    auto all() { return std::tie(f, v, o, w, x, d); }
};
EOSIO_REFLECT(nested, f, v, o, w, x, d)
EOSIO_COMPARE(nested);

// containers without a JSON form
struct boxes {
    std::list<int16_t> l; std::deque<std::string> q; std::set<uint8_t> s; std::map<std::string, std::vector<uint32_t>> m; std::pair<int8_t, std::string> p; std::tuple<uint8_t, double, one> t; std::array<uint16_t, 3> a{};
    e8 e = e8::a; s32 g = s32::a;
    auto all() { return std::tie(l, q, s, m, p, t, a, e, g); }
};
EOSIO_REFLECT(boxes, l, q, s, m, p, t, a, e, g)
EOSIO_COMPARE(boxes);
} // namespace nt

namespace nat {
template <typename T, typename = void> struct has_all : std::false_type {};
template <typename T> struct has_all<T, std::void_t<decltype(std::declval<T&>().all())>> : std::true_type {};
template <typename T> struct is_fixed : std::false_type {};
template <size_t N, typename W> struct is_fixed<eosio::fixed_bytes<N, W>> : std::true_type { static constexpr size_t size = N; };
template <typename T> constexpr bool isint = std::is_integral_v<T> || std::is_same_v<T, i128> || std::is_same_v<T, u128>;
template <typename T, template <typename...> class C> struct is_a : std::false_type {};
template <typename... A, template <typename...> class C> struct is_a<C<A...>, C> : std::true_type {};
template <typename T> struct is_array : std::false_type {};
template <typename T, size_t N> struct is_array<std::array<T, N>> : std::true_type {};
template <typename T> constexpr bool is_seq = is_a<T, std::vector>::value || is_a<T, std::list>::value || is_a<T, std::deque>::value;

// the scalar inside a chain type, for order and encoding
inline u64& scalar(eosio::name& x) { return x.value; }
inline u64& scalar(eosio::symbol& x) { return x.value; }
inline u64& scalar(eosio::symbol_code& x) { return x.value; }
inline uint32_t& scalar(eosio::time_point_sec& x) { return x.utc_seconds; }
inline uint32_t& scalar(eosio::block_timestamp& x) { return x.slot; }
inline uint32_t& scalar(eosio::varuint32& x) { return x.value; }
inline int32_t& scalar(eosio::varint32& x) { return x.value; }
inline int64_t& scalar(eosio::time_point& x) { return x.elapsed._count; }
template <typename T, typename = void> struct has_scalar : std::false_type {};
template <typename T> struct has_scalar<T, std::void_t<decltype(scalar(std::declval<T&>()))>> : std::true_type {};

struct opts {
    bool json = false;    // values must survive JSON: valid UTF-8, times in milliseconds, valid symbols
    bool nan = true;
};

inline std::string gen_text(bool utf8) {
    static const char* pieces[] = {"a", "b", "", "\n", "\"", "\\", "\x7f", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "zz", "/", "\x01", "A", "\xef\xbf\xbf"};
    std::string s;
    if (rng.one_in(12)) return std::string(rng.below(3) ? 126 + rng.below(4) : 16382 + rng.below(4), char('a' + rng.below(26)));
    for (u64 n = rng.below(rng.one_in(4) ? 12 : 4); n--;) {
        if (rng.one_in(6)) s += '\0';
        else if (!utf8 && rng.one_in(3)) s += char(rng.below(4) ? rng.next() : rng.below(2) ? 255 : 1);
        else s += pieces[rng.below(15)];
    }
    return s;
}
template <typename T>
T gen_int() {
    u128 v = (u128(rng.next()) << 64) | rng.next();
    switch (rng.below(7)) {
    case 0: v = 0; break;
    case 1: v = ~u128(0); break;
    case 2: v = u128(1) << rng.below(sizeof(T) * 8); break;
    case 3: v = (u128(1) << rng.below(sizeof(T) * 8)) - 1; break;
    case 4: v = rng.below(300); break;
    case 5: v = -v >> rng.below(128); break;
    }
    if (rng.one_in(4)) v = v + rng.below(3) - 1;
    if (rng.one_in(8)) v = ~v;
    return T(v);
}
template <typename T>
T gen(const opts& o, int depth = 3) {
    auto count = [&]() -> u64 { return depth <= 0 ? rng.below(2) : rng.one_in(40) ? 126 + rng.below(5) : rng.below(4); };
    if constexpr (std::is_same_v<T, bool>) return rng.below(2);
    else if constexpr (isint<T>) return gen_int<T>();
    else if constexpr (std::is_enum_v<T>) return T(gen_int<std::underlying_type_t<T>>());
    else if constexpr (std::is_floating_point_v<T>) {
        using U = std::conditional_t<sizeof(T) == 4, uint32_t, u64>;
        while (true) {
            T v;
            U b = gen_int<U>();
            if (rng.one_in(3)) v = T(int64_t(rng.below(2001)) - 1000) / T(rng.one_in(2) ? 8 : 10);
            else if (rng.one_in(10)) v = rng.one_in(2) ? T(0) : -T(0);
            else if (rng.one_in(10)) v = (rng.one_in(2) ? 1 : -1) * std::numeric_limits<T>::infinity();
            else memcpy(&v, &b, sizeof(v));
            if (std::isnan(v) && !o.nan) continue;
            return v;
        }
    }
    else if constexpr (std::is_same_v<T, std::string>) return gen_text(o.json);
    else if constexpr (is_seq<T>) {
        T v;
        for (u64 n = count(); n--;) v.push_back(gen<typename T::value_type>(o, depth - 1));
        return v;
    }
    else if constexpr (is_a<T, std::set>::value) {
        T v;
        for (u64 n = count(); n--;) v.insert(gen<typename T::value_type>(o, depth - 1));
        return v;
    }
    else if constexpr (is_a<T, std::map>::value) {
        T v;
        for (u64 n = count(); n--;) v.emplace(gen<typename T::key_type>(o, depth - 1), gen<typename T::mapped_type>(o, depth - 1));
        return v;
    }
    else if constexpr (is_a<T, std::pair>::value) { auto a = gen<typename T::first_type>(o, depth); return T{std::move(a), gen<typename T::second_type>(o, depth)}; }
    else if constexpr (is_a<T, std::tuple>::value) {
        T v;
        std::apply([&](auto&... x) { ((x = gen<std::decay_t<decltype(x)>>(o, depth)), ...); }, v);
        return v;
    }
    else if constexpr (is_array<T>::value) {
        T v{};
        for (auto& x : v) x = gen<typename T::value_type>(o, depth);
        return v;
    }
    else if constexpr (is_a<T, std::optional>::value) {
        if (depth <= 0 || rng.one_in(3)) return T{};
        return T{gen<typename T::value_type>(o, depth - 1)};
    }
    else if constexpr (is_a<T, std::variant>::value) {
        T v;
        size_t k = rng.below(std::variant_size_v<T>);
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((k == I ? (void)v.template emplace<I>(gen<std::variant_alternative_t<I, T>>(o, depth - 1)) : (void)0), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
        return v;
    }
    else if constexpr (std::is_same_v<T, eosio::symbol> || std::is_same_v<T, eosio::symbol_code>) {
        T v;
        u64 c = 0;
        for (u64 n = 1 + rng.below(7); n--;) c = c << 8 | ('A' + rng.below(26));
        v.value = std::is_same_v<T, eosio::symbol> ? c << 8 | (rng.below(2) ? rng.below(20) : rng.below(256)) : c;
        return v;
    }
    else if constexpr (std::is_same_v<T, eosio::asset>) {
        T v;
        v.amount = gen_int<int64_t>() >> 2;
        v.symbol = gen<eosio::symbol>(o, depth);
        return v;
    }
    else if constexpr (std::is_same_v<T, eosio::extended_asset>) { T v; v.quantity = gen<eosio::asset>(o, depth); v.contract.value = gen_int<u64>(); return v; }
    else if constexpr (std::is_same_v<T, eosio::time_point>) {
        // JSON: any millisecond of the years 1677 to 9999
        T v;
        if (o.json) v.elapsed._count = (int64_t(rng.below(262625672836854ull)) - 9223372036854ll) * 1000;
        else v.elapsed._count = gen_int<int64_t>();
        return v;
    }
    else if constexpr (std::is_same_v<T, eosio::bytes>) { T v; auto s = gen_text(false); v.data.assign(s.begin(), s.end()); return v; }
    else if constexpr (is_fixed<T>::value) {
        std::array<uint8_t, is_fixed<T>::size> b;
        for (auto& x : b) x = rng.one_in(3) ? (rng.one_in(2) ? 0 : 255) : uint8_t(rng.next());
        return T(b);
    }
    else if constexpr (has_scalar<T>::value) { T v; auto& r = scalar(v); r = gen_int<std::decay_t<decltype(r)>>(); return v; }
    else {
        static_assert(has_all<T>::value, "no generator for this type");
        T v;
        std::apply([&](auto&... x) { ((x = gen<std::decay_t<decltype(x)>>(o, depth - 1)), ...); }, v.all());
        return v;
    }
}

// the value with a small change somewhere inside (possibly none)
template <typename T>
T vary(const T& v0, const opts& o, int depth = 2) {
    T v = v0;
    if constexpr (isint<T> && !std::is_same_v<T, bool>) {
        switch (rng.below(5)) {
        case 0: return T(std::make_unsigned_t<T>(v) + 1);
        case 1: return T(std::make_unsigned_t<T>(v) - 1);
        case 2: return T(std::make_unsigned_t<T>(v) ^ (std::make_unsigned_t<T>(1) << rng.below(sizeof(T) * 8)));
        case 3: return T(-std::make_unsigned_t<T>(v));
        default: return gen<T>(o, depth);
        }
    }
    else if constexpr (std::is_floating_point_v<T>) {
        switch (rng.below(4)) {
        case 0: return std::isinf(v) ? v : std::nextafter(v, std::numeric_limits<T>::infinity());
        case 1: return std::isinf(v) ? v : std::nextafter(v, -std::numeric_limits<T>::infinity());
        case 2: return -v;
        default: return gen<T>(o, depth);
        }
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        size_t i = rng.below(v.size() + 1);
        if (o.json) { v.insert(0, 1, 'q'); return v; }
        switch (rng.below(5)) {
        case 0: v.insert(i, 1, "\0\1\377a"[rng.below(4)]); break;
        case 1: if (!v.empty()) v.erase(rng.below(v.size()), 1); break;
        case 2: if (!v.empty()) v[rng.below(v.size())] = "\0\1\377a\177\200"[rng.below(6)]; break;
        case 3: v += "\0\1\377"[rng.below(3)]; break;
        default: v.resize(i); break;
        }
        return v;
    }
    else if constexpr (is_seq<T>) {
        if (v.empty() || rng.one_in(4)) v.push_back(gen<typename T::value_type>(o, depth - 1));
        else if (rng.one_in(3)) v.pop_back();
        else { auto it = std::next(v.begin(), rng.below(v.size())); *it = vary(*it, o, depth - 1); }
        return v;
    }
    else if constexpr (is_a<T, std::set>::value) {
        if (!v.empty() && rng.one_in(2)) { auto it = std::next(v.begin(), rng.below(v.size())); auto x = vary(*it, o, depth - 1); v.erase(it); v.insert(x); }
        else v.insert(gen<typename T::value_type>(o, depth - 1));
        return v;
    }
    else if constexpr (is_a<T, std::map>::value) {
        if (!v.empty() && rng.one_in(2)) { auto it = std::next(v.begin(), rng.below(v.size())); it->second = vary(it->second, o, depth - 1); }
        else if (!v.empty() && rng.one_in(2)) { auto it = std::next(v.begin(), rng.below(v.size())); auto k = vary(it->first, o, depth - 1); auto m = it->second; v.erase(it); v.emplace(k, m); }
        else v.emplace(gen<typename T::key_type>(o, depth - 1), gen<typename T::mapped_type>(o, depth - 1));
        return v;
    }
    else if constexpr (is_a<T, std::pair>::value) { if (rng.one_in(2)) v.first = vary(v.first, o, depth); else v.second = vary(v.second, o, depth); return v; }
    else if constexpr (is_a<T, std::tuple>::value) {
        size_t k = rng.below(std::tuple_size_v<T>), i = 0;
        std::apply([&](auto&... x) { ((i++ == k ? (void)(x = vary(x, o, depth)) : (void)0), ...); }, v);
        return v;
    }
    else if constexpr (is_array<T>::value) { auto& x = v[rng.below(v.size())]; x = vary(x, o, depth); return v; }
    else if constexpr (is_a<T, std::optional>::value) { if (v && rng.below(4)) *v = vary(*v, o, depth); else v = gen<T>(o, depth); return v; }
    else if constexpr (is_a<T, std::variant>::value) {
        if (rng.one_in(4)) return gen<T>(o, depth);
        std::visit([&](auto& x) { x = vary(x, o, depth); }, v);
        return v;
    }
    else if constexpr (has_all<T>::value) {
        auto t = v.all();
        constexpr size_t N = std::tuple_size_v<decltype(t)>;
        if constexpr (N) {
            size_t k = rng.below(N), i = 0;
            std::apply([&](auto&... x) { ((i++ == k ? (void)(x = vary(x, o, depth - 1)) : (void)0), ...); }, t);
        }
        return v;
    }
    else if constexpr (is_fixed<T>::value) {
        auto b = v.extract_as_byte_array();
        b[rng.below(b.size())] ^= uint8_t(1 << rng.below(8));
        return T(b);
    }
    else if constexpr (has_scalar<T>::value && !std::is_same_v<T, eosio::symbol> && !std::is_same_v<T, eosio::symbol_code> && !std::is_same_v<T, eosio::time_point>) {
        scalar(v) = vary(scalar(v), o, depth);
        return v;
    }
    else return gen<T>(o, depth);
}

// independent three-way comparison; -2 when unordered (NaN)
template <typename T> int cmp(T a, T b);
template <typename I>
int cmp_range(I a, I ae, I b, I be) {
    for (; a != ae && b != be; ++a, ++b) if (int c = cmp<std::decay_t<decltype(*a)>>(*a, *b)) return c;
    return a != ae ? 1 : b != be ? -1 : 0;
}
template <typename T>
int cmp(T a, T b) {
    auto sign = [](auto x, auto y) { return x < y ? -1 : y < x ? 1 : x == y ? 0 : -2; };
    if constexpr (isint<T> || std::is_floating_point_v<T>) return sign(a, b);
    else if constexpr (std::is_enum_v<T>) return sign(std::underlying_type_t<T>(a), std::underlying_type_t<T>(b));
    else if constexpr (std::is_same_v<T, std::string>) {
        size_t n = std::min(a.size(), b.size());
        if (int c = n ? memcmp(a.data(), b.data(), n) : 0) return c < 0 ? -1 : 1;
        return sign(a.size(), b.size());
    }
    else if constexpr (is_seq<T> || is_a<T, std::set>::value || is_a<T, std::map>::value || is_array<T>::value) return cmp_range(a.begin(), a.end(), b.begin(), b.end());
    else if constexpr (is_a<T, std::pair>::value) { int c = cmp<std::decay_t<typename T::first_type>>(a.first, b.first); return c ? c : cmp<typename T::second_type>(a.second, b.second); }
    else if constexpr (is_a<T, std::optional>::value) { if (!a || !b) return sign(bool(a), bool(b)); return cmp<typename T::value_type>(*a, *b); }
    else if constexpr (is_a<T, std::variant>::value) {
        if (a.index() != b.index()) return sign(a.index(), b.index());
        int r = 0;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((a.index() == I ? (void)(r = cmp<std::variant_alternative_t<I, T>>(std::get<I>(a), std::get<I>(b))) : (void)0), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
        return r;
    }
    else if constexpr (is_a<T, std::tuple>::value || has_all<T>::value) {
        int r = 0;
        auto go = [&](auto&& x, auto&& y) {
            [&]<size_t... I>(std::index_sequence<I...>) {
                (((r = r ? r : cmp<std::decay_t<decltype(std::get<I>(x))>>(std::get<I>(x), std::get<I>(y)))), ...);
            }(std::make_index_sequence<std::tuple_size_v<std::decay_t<decltype(x)>>>{});
        };
        if constexpr (has_all<T>::value) go(a.all(), b.all()); else go(a, b);
        return r;
    }
    else if constexpr (std::is_same_v<T, eosio::asset>) { int c = sign(a.amount, b.amount); return c ? c : sign(a.symbol.value, b.symbol.value); }
    else if constexpr (std::is_same_v<T, eosio::extended_asset>) { int c = cmp<eosio::asset>(a.quantity, b.quantity); return c ? c : sign(a.contract.value, b.contract.value); }
    else if constexpr (std::is_same_v<T, eosio::bytes>) return cmp_range(a.data.begin(), a.data.end(), b.data.begin(), b.data.end());
    else if constexpr (is_fixed<T>::value) { auto x = a.extract_as_byte_array(), y = b.extract_as_byte_array(); int c = memcmp(x.data(), y.data(), x.size()); return c < 0 ? -1 : c > 0; }
    else return sign(scalar(a), scalar(b));
}
// equality with NaN equal to the same NaN (or any NaN)
template <typename T> bool same(T a, T b, bool anynan);
template <typename T>
bool same(T a, T b, bool anynan) {
    if constexpr (std::is_floating_point_v<T>) return anynan && std::isnan(a) ? std::isnan(b) : !memcmp(&a, &b, sizeof(a));
    else if constexpr (is_seq<T> || is_a<T, std::set>::value || is_a<T, std::map>::value || is_array<T>::value) {
        if (a.size() != b.size()) return false;
        auto i = b.begin();
        for (auto& x : a) if (!same<std::decay_t<decltype(x)>>(x, *i++, anynan)) return false;
        return true;
    }
    else if constexpr (is_a<T, std::pair>::value) return same<std::decay_t<typename T::first_type>>(a.first, b.first, anynan) && same<typename T::second_type>(a.second, b.second, anynan);
    else if constexpr (is_a<T, std::optional>::value) return bool(a) == bool(b) && (!a || same<typename T::value_type>(*a, *b, anynan));
    else if constexpr (is_a<T, std::variant>::value) {
        if (a.index() != b.index()) return false;
        bool r = false;
        [&]<size_t... I>(std::index_sequence<I...>) {
            ((a.index() == I ? (void)(r = same<std::variant_alternative_t<I, T>>(std::get<I>(a), std::get<I>(b), anynan)) : (void)0), ...);
        }(std::make_index_sequence<std::variant_size_v<T>>{});
        return r;
    }
    else if constexpr (is_a<T, std::tuple>::value || has_all<T>::value) {
        bool r = true;
        auto go = [&](auto&& x, auto&& y) {
            [&]<size_t... I>(std::index_sequence<I...>) {
                ((r = r && same<std::decay_t<decltype(std::get<I>(x))>>(std::get<I>(x), std::get<I>(y), anynan)), ...);
            }(std::make_index_sequence<std::tuple_size_v<std::decay_t<decltype(x)>>>{});
        };
        if constexpr (has_all<T>::value) go(a.all(), b.all()); else go(a, b);
        return r;
    }
    else return cmp<T>(a, b) == 0;
}

// independent wire encoding
inline void leb(u64 v, std::string& o) { do { o += char((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); }
template <typename T>
void enc(T v, std::string& o) {
    if constexpr (std::is_same_v<T, bool>) o += char(v);
    else if constexpr (isint<T>) { for (size_t i = 0; i < sizeof(T); ++i) o += char(std::make_unsigned_t<T>(v) >> (8 * i)); }
    else if constexpr (std::is_enum_v<T>) enc<std::underlying_type_t<T>>(std::underlying_type_t<T>(v), o);
    else if constexpr (std::is_floating_point_v<T>) o.append((const char*)&v, sizeof(v));
    else if constexpr (std::is_same_v<T, std::string>) { leb(v.size(), o); o += v; }
    else if constexpr (is_seq<T> || is_a<T, std::set>::value || is_a<T, std::map>::value) { leb(v.size(), o); for (auto& x : v) enc<std::decay_t<decltype(x)>>(x, o); }
    else if constexpr (is_array<T>::value) { for (auto& x : v) enc<std::decay_t<decltype(x)>>(x, o); }
    else if constexpr (is_a<T, std::pair>::value) { enc<std::decay_t<typename T::first_type>>(v.first, o); enc<typename T::second_type>(v.second, o); }
    else if constexpr (is_a<T, std::optional>::value) { o += char(v ? 1 : 0); if (v) enc<typename T::value_type>(*v, o); }
    else if constexpr (is_a<T, std::variant>::value) { leb(v.index(), o); std::visit([&](auto& x) { enc<std::decay_t<decltype(x)>>(x, o); }, v); }
    else if constexpr (is_a<T, std::tuple>::value) std::apply([&](auto&... x) { (enc<std::decay_t<decltype(x)>>(x, o), ...); }, v);
    else if constexpr (has_all<T>::value) std::apply([&](auto&... x) { (enc<std::decay_t<decltype(x)>>(x, o), ...); }, v.all());
    else if constexpr (std::is_same_v<T, eosio::asset>) { enc<int64_t>(v.amount, o); enc<u64>(v.symbol.value, o); }
    else if constexpr (std::is_same_v<T, eosio::extended_asset>) { enc(v.quantity, o); enc<u64>(v.contract.value, o); }
    else if constexpr (std::is_same_v<T, eosio::bytes>) { leb(v.data.size(), o); o.append(v.data.data(), v.data.size()); }
    else if constexpr (is_fixed<T>::value) { auto b = v.extract_as_byte_array(); o.append((const char*)b.data(), b.size()); }
    else if constexpr (std::is_same_v<T, eosio::varuint32>) leb(v.value, o);
    else if constexpr (std::is_same_v<T, eosio::varint32>) leb(uint32_t(v.value) << 1 ^ (v.value < 0 ? 0xffffffffu : 0), o);
    else { auto x = scalar(v); enc<std::decay_t<decltype(x)>>(x, o); }
}
template <typename T> std::string enc(const T& v) { std::string o; enc<T>(v, o); return o; }
} // namespace nat
