// Binary and JSON round trips of compiled types, against an independent encoder.
#pragma once
#include "nat_types.hpp"
using namespace nat;

namespace nt {
struct carr { uint16_t a[3] = {}; std::string b[2]; };
EOSIO_REFLECT(carr, a, b)
} // namespace nt

template <typename T>
void bin_of(const char* name, const T& v) {
    opts o;
    std::string e = enc(v);
    std::vector<char> b = eosio::convert_to_bin(v);
    seen("encoded", hash(e, hash(name, strlen(name))));
    if (str(b) != e) violate(std::string("encode ") + name, "encoding is " + hex(b) + ", should be " + hex(e));
    std::vector<char> pre{'x', 'y'};
    eosio::convert_to_bin(v, pre);
    if (str(pre) != "xy" + e) violate(std::string("append ") + name, "appended " + hex(pre) + ", should be 7879 + " + hex(e));
    size_t extra = rng.below(4) ? rng.below(3) : rng.below(40);
    for (int used = 0; used < 2; ++used) {
        buffer in(e + std::string(extra, char(rng.next())));
        eosio::input_stream s(in.begin(), in.n);
        T w{};
        if (used) w = gen<T>(o);
        auto err = reports([&] { eosio::from_bin(w, s); });
        seen(used ? "decoded into a used object" : "decoded", hash(e, hash(name, strlen(name))));
        std::string what = std::string(name) + (used ? " into a used object: " : ": ") + hex(e) + " ";
        if (err) violate(std::string("decode ") + name, what + "does not decode: " + *err);
        else if (!same<T>(v, w, false)) violate(std::string("value ") + name, what + "decodes to the value encoded as " + hex(enc(w)));
        else if (s.remaining() != extra) violate(std::string("consumed ") + name, what + "leaves " + std::to_string(s.remaining()) + " of " + std::to_string(extra) + " following bytes");
    }
    {
        std::vector<char> ev(e.begin(), e.end());
        T w{};
        auto err = reports([&] { w = eosio::convert_from_bin<T>(ev); });
        if (err || !same<T>(v, w, false)) violate(std::string("convert ") + name, "convert_from_bin of " + hex(e) + " fails or differs");
    }
    size_t tries = std::min<size_t>(e.size(), 12);
    for (size_t k = 0; k < tries; ++k) {
        size_t n = e.size() <= 12 ? k : k < 3 ? e.size() - 1 - k : rng.below(e.size());
        buffer in(e.substr(0, n));
        eosio::input_stream s(in.begin(), in.n);
        T w{};
        auto err = reports([&] { eosio::from_bin(w, s); });
        seen("truncated input", hash(e, hash(name, strlen(name), n)));
        if (!err) violate(std::string("truncated ") + name, std::to_string(n) + " of the bytes " + hex(e) + " decode without an error");
        if (s.pos < in.begin() || s.pos > in.end()) violate(std::string("cursor ") + name, "the read position left the input " + hex(e));
    }
}

template <typename T>
void bin_round(const char* name) { bin_of<T>(name, gen<T>({})); }

template <typename T>
void json_of(const char* name, const T& v) {
    opts o;
    o.json = true;
    auto e = enc(v);
    for (int pretty = 0; pretty < 2; ++pretty) {
        std::string text = pretty ? eosio::format_json(v) : eosio::convert_to_json(v);
        for (int used = 0; used < 2; ++used) {
            std::string t = text;
            T w{};
            if (used) w = gen<T>(o);
            auto err = reports([&] { eosio::json_token_stream s(t.data()); eosio::from_json(w, s); s.get_end(); });
            seen(used ? "JSON read into a used object" : "JSON round trip", hash(e, hash(name, strlen(name), pretty)));
            if (err) violate(std::string("json ") + name, text + " does not parse: " + *err);
            else if (!same<T>(v, w, true)) violate(std::string("json value ") + name + (used ? " used" : ""), text + " (from " + hex(e) + ") parses to " + hex(enc(w)));
        }
    }
}
template <typename T>
void json_round(const char* name) { opts o; o.json = true; json_of<T>(name, gen<T>(o)); }
template <typename T> void both(const char* name) { bin_round<T>(name); json_round<T>(name); }

inline void c_arrays() {
    nt::carr v;
    for (auto& x : v.a) x = gen_int<uint16_t>();
    for (auto& x : v.b) x = gen_text(false);
    std::string e = "\3";
    for (auto x : v.a) enc<uint16_t>(x, e);
    e += '\2';
    for (auto& x : v.b) enc<std::string>(x, e);
    auto b = eosio::convert_to_bin(v);
    seen("C arrays", hash(e));
    if (str(b) != e) violate("C array encoding", hex(b) + " should be " + hex(e));
    for (int k = 0; k < 6; ++k) {
        std::string m = e;
        bool good = k == 0;
        if (k == 1) m[0] = 2; else if (k == 2) m[0] = 4; else if (k == 3) m[7] = 1; else if (k == 4) m[7] = 3; else if (k == 5) m.resize(rng.below(m.size()));
        buffer in(m);
        eosio::input_stream s(in.begin(), in.n);
        nt::carr w;
        auto err = reports([&] { eosio::from_bin(w, s); });
        if (bool(err) == good) violate("C array decoding", hex(m) + (good ? " rejected" : " accepted"));
        if (good && !err && (memcmp(v.a, w.a, sizeof(v.a)) || v.b[0] != w.b[0] || v.b[1] != w.b[1] || s.remaining())) violate("C array value", hex(m) + " decodes to another value");
    }
}

#define B(...) bin_round<__VA_ARGS__>(#__VA_ARGS__)
#define J(...) both<__VA_ARGS__>(#__VA_ARGS__)
using bigvar = std::variant<uint8_t, int8_t, uint16_t, int16_t, uint32_t, int32_t, uint64_t, int64_t, std::string, float, double, nt::one>;

void part_a(nat::u64 i);
void part_b(nat::u64 i);
void part_c(nat::u64 i);
void part_d(nat::u64 i);
void part_e(nat::u64 i);
void part_f(nat::u64 i);
