// Random values, equality and an independent encoder for the leaf types of generated programs.
#pragma once
#include <eosio/bytes.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/name.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
#include "nat.hpp"

namespace g {
using nat::rng;
template <typename T> auto fill(T& v) -> std::enable_if_t<std::is_integral_v<T>> { v = rng.one_in(4) ? T(rng.below(3)) : T(rng.next()); }
inline void fill(bool& v) { v = rng.one_in(2); }
inline void fill(double& v) { v = double(int64_t(rng.next())) / double(1 + rng.below(1000)); }
inline void fill(float& v) { v = float(int32_t(rng.next())) / 8; }
inline void fill(std::string& v) { v.clear(); for (size_t n = rng.below(9); n; --n) v += char('a' + rng.below(26)); }
inline void fill(eosio::name& v) { v.value = rng.next() & ~15ull; }
inline void fill(eosio::checksum256& v) { for (auto& w : v.value) w = typename std::decay_t<decltype(v.value)>::value_type(rng.next()); }
inline void fill(eosio::varuint32& v) { v.value = uint32_t(rng.next() >> rng.below(60)); }
inline void fill(eosio::bytes& v) { v.data.resize(rng.below(7)); for (auto& c : v.data) c = char(rng.next()); }
inline void fill(eosio::time_point_sec& v) { v.utc_seconds = uint32_t(rng.next()); }
template <typename T> void fill(std::vector<T>& v);
template <typename T> void fill(std::optional<T>& v) { if (rng.one_in(3)) v.reset(); else { T x{}; fill(x); v = std::move(x); } }
template <typename T> void fill(std::vector<T>& v) { v.clear(); for (size_t n = rng.below(4); n; --n) { T x{}; fill(x); v.push_back(std::move(x)); } }
template <typename... T> void fill(std::variant<T...>& v) {
    size_t i = rng.below(sizeof...(T)), k = 0;
    ([&](auto* p) { if (k++ == i) { std::decay_t<decltype(*p)> x{}; fill(x); v = std::move(x); } }((T*)nullptr), ...);
}

template <typename T> auto same(const T& x, const T& y) -> std::enable_if_t<std::is_arithmetic_v<T>, bool> { return x == y; }
inline bool same(const std::string& x, const std::string& y) { return x == y; }
inline bool same(const eosio::name& x, const eosio::name& y) { return x.value == y.value; }
inline bool same(const eosio::checksum256& x, const eosio::checksum256& y) { return x.value == y.value; }
inline bool same(const eosio::varuint32& x, const eosio::varuint32& y) { return x.value == y.value; }
inline bool same(const eosio::bytes& x, const eosio::bytes& y) { return x.data == y.data; }
inline bool same(const eosio::time_point_sec& x, const eosio::time_point_sec& y) { return x.utc_seconds == y.utc_seconds; }
template <typename T> bool same(const std::vector<T>& x, const std::vector<T>& y);
template <typename T> bool same(const std::optional<T>& x, const std::optional<T>& y) { return bool(x) == bool(y) && (!x || same(*x, *y)); }
template <typename T> bool same(const std::vector<T>& x, const std::vector<T>& y) {
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); ++i) if (!same(x[i], y[i])) return false;
    return true;
}
template <typename... T> bool same(const std::variant<T...>& x, const std::variant<T...>& y) {
    return x.index() == y.index() && std::visit([&](auto& a) { return same(a, std::get<std::decay_t<decltype(a)>>(y)); }, x);
}

inline void leb(std::string& w, uint64_t v) { do { w += char((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); }
template <typename T> auto wire(std::string& w, const T& v) -> std::enable_if_t<std::is_arithmetic_v<T>> { w.append((const char*)&v, sizeof v); }
inline void wire(std::string& w, const std::string& v) { leb(w, v.size()); w += v; }
inline void wire(std::string& w, const eosio::name& v) { wire(w, v.value); }
inline void wire(std::string& w, const eosio::checksum256& v) { auto a = v.extract_as_byte_array(); w.append((const char*)a.data(), a.size()); }
inline void wire(std::string& w, const eosio::varuint32& v) { leb(w, v.value); }
inline void wire(std::string& w, const eosio::bytes& v) { leb(w, v.data.size()); w.append(v.data.data(), v.data.size()); }
inline void wire(std::string& w, const eosio::time_point_sec& v) { wire(w, v.utc_seconds); }
template <typename T> void wire(std::string& w, const std::vector<T>& v);
template <typename T> void wire(std::string& w, const std::optional<T>& v) { w += char(bool(v)); if (v) wire(w, *v); }
template <typename T> void wire(std::string& w, const std::vector<T>& v) { leb(w, v.size()); for (auto& x : v) wire(w, x); }
template <typename... T> void wire(std::string& w, const std::variant<T...>& v) { leb(w, v.index()); std::visit([&](auto& a) { wire(w, a); }, v); }
} // namespace g
