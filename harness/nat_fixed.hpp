// Fixed-size byte strings against a plain byte array.
#pragma once
#include "nat_types.hpp"
using namespace nat;
void part_a(); void part_b(); void part_c(); void part_d(); void part_e();

// the big-endian words of a byte string, zero-filled at the end
template <typename T, size_t S>
std::array<T, (S + sizeof(T) - 1) / sizeof(T)> words(const std::array<uint8_t, S>& b) {
    std::array<T, (S + sizeof(T) - 1) / sizeof(T)> r;
    for (size_t i = 0; i < r.size(); ++i) {
        T v = 0;
        for (size_t k = 0; k < sizeof(T); ++k) { size_t at = i * sizeof(T) + k; v = T(u128(v) << 8 | (at < S ? b[at] : 0)); }
        r[i] = v;
    }
    return r;
}
template <size_t S> std::string text(const std::array<uint8_t, S>& b) { return std::string((const char*)b.data(), S); }

template <size_t S, typename W> struct judge {
    using F = eosio::fixed_bytes<S, W>;
    std::string name = "fixed_bytes<" + std::to_string(S) + ", u" + std::to_string(8 * sizeof(W)) + ">";
    u64 tag = S * 100 + sizeof(W);

    void holds(const F& f, const std::array<uint8_t, S>& b, const char* how) {
        seen(how, hash(text(b), tag));
        auto bad = [&](const char* what) { violate(std::string(how) + " " + what, name + " of " + hex(text(b)) + ": " + how + ": " + what + " gives something else"); };
        if (f.extract_as_byte_array() != b) bad("extract_as_byte_array");
        auto w = words<W>(b);
        if (f.get_array() != w) bad("get_array");
        if (f.size() != w.size() || F::num_words() != w.size() || F::padded_bytes() != w.size() * sizeof(W) - S) bad("size");
        if (!std::equal(w.begin(), w.end(), f.data())) bad("data");
        if (f.template extract_as_word_array<uint8_t>() != words<uint8_t>(b)) bad("8-bit words");
        if (f.template extract_as_word_array<uint16_t>() != words<uint16_t>(b)) bad("16-bit words");
        if (f.template extract_as_word_array<uint32_t>() != words<uint32_t>(b)) bad("32-bit words");
        if (f.template extract_as_word_array<uint64_t>() != words<uint64_t>(b)) bad("64-bit words");
        if (f.template extract_as_word_array<u128>() != words<u128>(b)) bad("128-bit words");
    }
    template <typename T>
    void from_words(const std::array<uint8_t, S>& b, const char* how) {
        auto w = words<T>(b);
        holds(F(w), b, how);
        T c[w.size()];
        std::copy(w.begin(), w.end(), c);
        holds(F(c), b, how);
        std::apply([&](auto... x) { holds(F::template make_from_word_sequence<T>(x...), b, how); }, w);
        // fewer words: the rest is zero
        constexpr size_t N = (S + sizeof(T) - 1) / sizeof(T), M = N > 1 ? N / 2 : 1;
        std::array<T, M> few;
        std::copy(w.begin(), w.begin() + M, few.begin());
        auto z = b;
        for (size_t i = M * sizeof(T); i < S; ++i) z[i] = 0;
        holds(F(few), z, "built from fewer words");
    }
    std::array<uint8_t, S> bytes() {
        std::array<uint8_t, S> b;
        int kind = rng.below(5);
        for (auto& x : b) x = kind == 0 ? 0 : kind == 1 ? 255 : kind == 2 ? (rng.one_in(2) ? 0x80 : 0x7f) : uint8_t(rng.next());
        if (kind < 2) b[rng.below(S)] ^= uint8_t(1 << rng.below(8));
        return b;
    }
    void run() {
        auto b = bytes();
        F f(b);
        holds(f, b, "built from bytes");
        { const F g{b}; holds(g, b, "built from bytes"); uint8_t c[S]; std::copy(b.begin(), b.end(), c); holds(F(c), b, "built from bytes"); }
        holds(F(), std::array<uint8_t, S>{}, "default");
        if constexpr (S >= 3) { std::array<uint8_t, S> z{}; z[0] = b[0]; z[1] = b[1]; z[2] = b[2]; holds(F{b[0], b[1], b[2]}, z, "built from a list"); }
        from_words<uint8_t>(b, "built from 8-bit words"); from_words<uint16_t>(b, "built from 16-bit words"); from_words<uint32_t>(b, "built from 32-bit words");
        from_words<uint64_t>(b, "built from 64-bit words"); from_words<u128>(b, "built from 128-bit words");
        // order
        auto c = rng.below(3) ? b : bytes();
        if (rng.below(3)) c[rng.below(S)] ^= uint8_t(1 << rng.below(8));
        if (rng.one_in(3) && S > 1) std::swap(c[rng.below(S)], c[rng.below(S)]);
        F g(c);
        int o = memcmp(b.data(), c.data(), S);
        seen("compared", hash(text(b), hash(text(c), tag)));
        if ((f == g) != (o == 0) || (f != g) != (o != 0) || (f < g) != (o < 0) || (f > g) != (o > 0) || (f <= g) != (o <= 0) || (f >= g) != (o >= 0)) violate("order", name + ": comparison of " + hex(text(b)) + " and " + hex(text(c)) + " is wrong");
        // forms
        auto bin = eosio::convert_to_bin(f);
        if (str(bin) != text(b)) violate("binary", name + " of " + hex(text(b)) + " serialises to " + hex(bin));
        auto key = eosio::convert_to_key(f);
        if (str(key) != text(b)) violate("key", name + " of " + hex(text(b)) + " has the key " + hex(key));
        auto js = eosio::convert_to_json(f);
        std::string up = hex(text(b)), low = up;
        for (auto& ch : up) ch = toupper(ch);
        if (js != "\"" + up + "\"") violate("JSON", name + " of " + low + " prints as " + js);
        {
            buffer in(text(b) + "tail");
            eosio::input_stream s(in.begin(), in.n);
            F r(bytes());
            auto e = reports([&] { eosio::from_bin(r, s); });
            if (e || s.remaining() != 4) violate("binary", name + " does not decode from exactly its bytes");
            else holds(r, b, "decoded from binary");
            buffer shrt(text(b).substr(0, rng.below(S)));
            eosio::input_stream t(shrt.begin(), shrt.n);
            if (!reports([&] { eosio::from_bin(r, t); })) violate("short binary", name + " decodes from fewer bytes");
        }
        for (int k = 0; k < 7; ++k) {
            std::string h = rng.one_in(2) ? up : low;
            if (k == 1) h += h.substr(0, 2); else if (k == 2) h.resize(h.size() - 2); else if (k == 3) h.resize(h.size() - 1); else if (k == 4) h += '0';
            else if (k == 5) h[rng.below(h.size())] = "gG xz-\x7f"[rng.below(7)]; else if (k == 6) for (auto& ch : h) if (rng.one_in(2)) ch = toupper(ch);
            std::string t = "\"" + h + "\"";
            F r;
            auto e = reports([&] { eosio::json_token_stream s(t.data()); eosio::from_json(r, s); s.get_end(); });
            bool good = k == 0 || k == 6;
            seen(good ? "hex parsed" : "wrong hex", hash(h, tag));
            if (bool(e) == good) violate(good ? "hex rejected" : "wrong hex accepted", name + " from \"" + h + "\": " + (e ? *e : "accepted"));
            else if (good) holds(r, b, "parsed from hex");
        }
    }
};
template <typename W, size_t... S> void all_sizes() { (judge<S, W>().run(), ...); }
