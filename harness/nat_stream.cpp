// Output and input streams against byte-array models, in exactly-sized heap buffers.
#define NAT_MAIN
#include "nat_types.hpp"
using namespace nat;

// one value written by one writer through every kind of stream
template <template <typename> class Wrap, typename F>
void streams(const char* name, F write) {
    std::vector<char> ref;
    Wrap<eosio::vector_stream> vs{ref};
    if (auto e = reports([&] { write(vs); })) { violate(std::string("vector ") + name, std::string(name) + ": writing to a growing buffer fails: " + *e); return; }
    u64 h = hash(str(ref), hash(name, strlen(name)));
    Wrap<eosio::size_stream> ss;
    auto e = reports([&] { write(ss); });
    seen("size computed", h);
    if (e || ss.size != ref.size()) violate(std::string("size ") + name, std::string(name) + ": computed size " + std::to_string(ss.size) + ", written " + std::to_string(ref.size()) + " " + hex(ref));
    size_t n = ref.size(), all = n <= 24 ? n + 3 : 16;
    for (size_t k = 0; k < all; ++k) {
        size_t cap = n <= 24 ? k : k < 8 ? n - 5 + k : rng.below(n + 3);
        buffer b(cap);
        Wrap<eosio::fixed_buf_stream> fs(b.begin(), b.n);
        auto e = reports([&] { write(fs); });
        seen(cap < n ? "fixed buffer too small" : "fixed buffer large enough", h + cap);
        std::string what = std::string(name) + ": " + std::to_string(n) + " bytes into a buffer of " + std::to_string(cap);
        if (bool(e) != (cap < n)) violate(std::string("outcome ") + name, what + (e ? " fails: " + *e : " reports no error"));
        if (fs.pos < b.begin() || fs.pos > b.end() || fs.end != b.end()) violate(std::string("cursor ") + name, what + " leaves the cursor outside");
        else if (!e) {
            if (size_t(fs.pos - b.begin()) != n || std::string(b.begin(), b.begin() + std::min(n, cap)) != str(ref)) violate(std::string("bytes ") + name, what + " gives other bytes than the growing buffer");
            for (size_t i = n; i < cap; ++i) if (b.begin()[i] != 0x5a) violate(std::string("beyond ") + name, what + " changes bytes after the value");
        } else {
            size_t got = fs.pos - b.begin();
            if (got > n || std::string(b.begin(), fs.pos) != str(ref).substr(0, got)) violate(std::string("prefix ") + name, what + " wrote something else than a prefix");
        }
    }
}
template <typename S> using Plain = S;

template <typename T> void bin(const char* name) { T v = gen<T>({}); streams<Plain>((std::string("binary ") + name).c_str(), [&](auto& s) { eosio::to_bin(v, s); }); }
template <typename T> void json(const char* name) {
    T v = gen<T>({true});
    streams<Plain>((std::string("JSON ") + name).c_str(), [&](auto& s) { eosio::to_json(v, s); });
    streams<eosio::pretty_stream>((std::string("formatted JSON ") + name).c_str(), [&](auto& s) { eosio::to_json(v, s); });
    std::vector<char> c;
    { eosio::vector_stream s(c); eosio::to_json(v, s); }
    auto e = reports([&] { if (eosio::convert_to_json(v) != str(c)) violate(std::string("convert_to_json ") + name, "convert_to_json differs from " + str(c)); });
    if (e) violate(std::string("convert_to_json ") + name, "convert_to_json fails: " + *e);
    std::vector<char> p;
    { eosio::pretty_stream<eosio::vector_stream> s(p); eosio::to_json(v, s); }
    e = reports([&] { if (eosio::format_json(v) != str(p)) violate(std::string("format_json ") + name, "format_json differs from " + str(p)); });
    if (e) violate(std::string("format_json ") + name, "format_json fails: " + *e);
}
template <typename T> void key(const char* name) {
    opts o; o.nan = false;
    T v = gen<T>(o);
    streams<Plain>((std::string("key ") + name).c_str(), [&](auto& s) { eosio::to_key(v, s); });
    std::vector<char> c{'k'}, d;
    { eosio::vector_stream s(d); eosio::to_key(v, s); }
    eosio::convert_to_key(v, c);
    if (str(c) != "k" + str(d)) violate(std::string("convert_to_key ") + name, "convert_to_key gives " + hex(c) + ", the stream " + hex(d));
}
#define B(...) bin<__VA_ARGS__>(#__VA_ARGS__)
#define J(...) json<__VA_ARGS__>(#__VA_ARGS__)
#define K(...) key<__VA_ARGS__>(#__VA_ARGS__)

std::string random_bytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = char(rng.next()); return s; }

// random sequences of writes; every write that fits must succeed and every other must report an error
void fixed_history() {
    size_t cap = rng.one_in(8) ? 0 : rng.below(rng.one_in(5) ? 200 : 24);
    buffer b(cap);
    std::unique_ptr<buffer> keep;
    eosio::fixed_buf_stream fs(b.begin(), b.n);
    std::string model, log, whole;
    eosio::size_stream ss;
    std::vector<char> grown;
    eosio::vector_stream vs(grown);
    for (u64 k = 1 + rng.below(14); k--;) {
        std::string add;
        std::optional<std::string> e;
        // the same write to all three; only the bounded one may fail
        auto all = [&](auto write) {
            e = reports([&] { write(fs); });
            if (auto x = reports([&] { write(ss); write(vs); })) violate("write", "writing to a stream without bounds fails: " + *x);
        };
        auto literal = [&](auto& lit) {
            for (auto& c : lit) c = char(rng.one_in(3) ? 0 : rng.next());
            add.assign(lit, sizeof lit);
            const auto& fixed = lit;
            e = reports([&] { fs.write(fixed); });
            ss.write(fixed);
            vs.write(fixed, sizeof lit);
        };
        switch (rng.below(8)) {
        case 0: { char c = char(rng.one_in(4) ? 0 : rng.next()); add = std::string(1, c); all([&](auto& s) { s.write(c); }); break; }
        case 1: { uint32_t x = rng.next(); add.assign((char*)&x, 4); all([&](auto& s) { s.write_raw(x); }); break; }
        case 2: { u64 x = rng.next(); add.assign((char*)&x, 8); all([&](auto& s) { s.write_raw(x); }); break; }
        case 3: { char lit[3]; literal(lit); break; }
        case 4: { size_t n = cap - model.size() + rng.below(4); if (n > 1) n -= rng.below(2); keep.reset(new buffer(random_bytes(n))); add = std::string(keep->begin(), keep->end()); all([&](auto& s) { s.write(keep->begin(), n); }); break; }
        case 5: { size_t n = rng.one_in(30) ? 1000000 : rng.below(12); keep.reset(new buffer(random_bytes(n))); add = std::string(keep->begin(), keep->end()); all([&](auto& s) { s.write(keep->begin(), n); }); break; }
        case 6: { if (rng.one_in(2)) { char lit[1]; literal(lit); } else { char lit[17]; literal(lit); } break; }
        default: { eosio::name x{rng.next()}; enc<u64>(x.value, add); all([&](auto& s) { eosio::to_bin(x, s); }); break; }
        }
        whole += add;
        if (ss.size != whole.size()) { violate("size write", "writes of" + log + " " + std::to_string(add.size()) + ": the size stream counts " + std::to_string(ss.size) + " bytes"); return; }
        if (str(grown) != whole) { violate("vector write", "writes of" + log + " " + std::to_string(add.size()) + " left other bytes in the vector"); return; }
        bool fits = model.size() + add.size() <= cap;
        seen(fits ? "write that fits" : "write that does not fit", cap << 40 | model.size() << 20 | add.size());
        log += " " + std::to_string(add.size());
        if (bool(e) == fits) violate("fixed write", "capacity " + std::to_string(cap) + ", writes of" + log + ": the last " + (fits ? "fails: " + *e : "reports no error"));
        if (!e) model += add;
        if (size_t(fs.pos - b.begin()) != model.size() || model.size() > cap) { violate("fixed cursor", "capacity " + std::to_string(cap) + ", writes of" + log + ": cursor at " + std::to_string(fs.pos - b.begin()) + ", should be " + std::to_string(model.size())); return; }
        if (std::string(b.begin(), b.begin() + model.size()) != model) violate("fixed bytes", "capacity " + std::to_string(cap) + ", writes of" + log + " left other bytes");
        if (e) for (size_t i = model.size(); i < cap; ++i) if (b.begin()[i] != 0x5a) violate("fixed beyond", "a write that failed changed the buffer");
    }
}

void input_history() {
    std::string data = random_bytes(rng.one_in(8) ? 0 : rng.below(rng.one_in(6) ? 300 : 40));
    // strings and sizes that are valid, just too large, or absurd
    if (data.size() > 3 && rng.one_in(2)) data[rng.below(data.size())] = char(rng.below(20));
    buffer b(data);
    eosio::input_stream s = rng.one_in(2) ? eosio::input_stream(b.begin(), b.n) : rng.one_in(2) ? eosio::input_stream(b.begin(), (const char*)b.end()) : eosio::input_stream(std::string_view(b.begin(), b.n));
    size_t at = 0;
    std::string log;
    for (u64 k = 1 + rng.below(14); k--;) {
        size_t left = data.size() - at, n;
        switch (rng.below(8)) {
        case 0: n = left; break;
        case 1: n = left + 1 + rng.below(3); break;
        case 2: n = size_t(0) - 1 - rng.below(left + 20); break;
        case 3: n = (size_t(1) << (rng.below(64))) - rng.below(2); break;
        case 4: n = 0; break;
        default: n = rng.below(7);
        }
        std::optional<std::string> e;
        std::string got, op;
        bool compare = true, moves = true, exact = true;
        switch (rng.below(8)) {
        case 0: op = "check"; moves = compare = false; e = reports([&] { s.check_available(n); }); break;
        case 1: op = "skip"; compare = false; e = reports([&] { s.skip(n); }); break;
        case 2: { op = "reuse"; const char* p = nullptr; e = reports([&] { s.read_reuse_storage(p, n); }); if (!e) { if (n && p != b.begin() + at) violate("reuse storage", "a view of the input points elsewhere"); got.assign(p ? p : "", p ? n : 0); } break; }
        case 3: { op = "raw4"; n = 4; uint32_t x = 0; e = reports([&] { s.read_raw(x); }); got.assign((char*)&x, 4); break; }
        case 4: { op = "raw1"; n = 1; char x = 0; e = reports([&] { s.read_raw(x); }); got.assign(&x, 1); break; }
        case 5: { op = "int16"; n = 16; u128 x = 0; e = reports([&] { eosio::from_bin(x, s); }); got.assign((char*)&x, 16); break; }
        case 6: { // the destination is as large as the claimed size only when it fits
            op = "read"; buffer d(n <= left ? n : 0); e = reports([&] { s.read(d.begin(), n); }); got.assign(d.begin(), d.n); break; }
        default: { // a length-prefixed view or string
            op = "view"; exact = false;
            eosio::input_stream in; std::string_view v; std::string str; std::vector<char> vc; int kind = rng.below(4);
            e = reports([&] { if (kind == 0) eosio::from_bin(in, s); else if (kind == 1) eosio::from_bin(v, s); else if (kind == 2) eosio::from_bin(str, s); else eosio::from_bin(vc, s); });
            u64 len = 0; size_t i = at; int sh = 0; bool ok = false;
            for (; i < data.size() && sh < 70; ++i, sh += 7) { if (sh < 64) len |= u64(data[i] & 127) << sh; if (!(data[i] & 128)) { ok = true; ++i; break; } }
            ok = ok && sh < 28 && len <= data.size() - i; // longer length encodings are not judged here
            if (ok) {
                got = kind == 0 ? std::string(in.pos, in.end) : kind == 1 ? std::string(v) : kind == 2 ? str : std::string(vc.begin(), vc.end());
                if (e || got != data.substr(i, len)) violate("length-prefixed read", hex(data.substr(at)) + (e ? " rejected: " + *e : " reads " + hex(got)));
                if (!e && kind == 0 && len && in.pos != b.begin() + i) violate("input view", "a view of the input points elsewhere");
            } else if (!e && sh < 28) violate("length-prefixed read", hex(data.substr(at)) + " accepted");
            break; }
        }
        log += " " + op + ":" + std::to_string(n);
        if (s.pos < b.begin() || s.pos > b.end() || s.end != b.end()) { violate("input cursor", std::to_string(data.size()) + " bytes," + log + ": the cursor leaves the input"); return; }
        if (exact) {
            bool fits = n <= left;
            seen(fits ? "read that fits" : "read that does not fit", data.size() << 40 ^ at << 20 ^ n);
            if (bool(e) == fits) violate("input " + op, std::to_string(data.size()) + " bytes," + log + ": the last " + (fits ? "fails: " + *e : "reports no error"));
            if (!e && compare && got != data.substr(at, n)) violate("input bytes " + op, std::to_string(data.size()) + " bytes," + log + " reads other bytes");
            if (!e && moves && size_t(s.pos - b.begin()) != at + n) violate("input position " + op, std::to_string(data.size()) + " bytes," + log + ": at " + std::to_string(s.pos - b.begin()));
            if (!e && !moves && size_t(s.pos - b.begin()) != at) violate("input position " + op, "checking what is available moves the position");
        } else seen("length-prefixed read", hash(data, at));
        at = s.pos - b.begin();
        if (s.remaining() != data.size() - at || s.get_pos() != s.pos) violate("remaining", "remaining() or get_pos() is wrong");
    }
}

void nat::run(u64 cases, bool) {
    using namespace nt;
    using var = std::variant<uint8_t, std::string, double, int64_t>;
    for (u64 i = 0; i < cases; ++i) {
        for (int k = 0; k < 40; ++k) { fixed_history(); input_history(); }
        B(bool); B(int16_t); B(u128); B(double); B(std::string); B(e16); B(eosio::varuint32); B(eosio::varint32); B(eosio::asset); B(eosio::checksum160); B(eosio::bytes); B(derived); B(nested); B(boxes); B(chain);
        B(std::vector<uint32_t>); B(std::vector<std::string>); B(std::map<std::string, std::set<int16_t>>); B(std::tuple<uint8_t, std::list<one>>); B(std::optional<flat>); B(var); B(std::array<uint16_t, 3>);
        J(bool); J(int8_t); J(uint64_t); J(i128); J(u128); J(float); J(double); J(std::string); J(eosio::name); J(eosio::asset); J(eosio::extended_asset); J(eosio::symbol); J(eosio::bytes); J(eosio::checksum256); J(eosio::time_point); J(eosio::block_timestamp);
        J(empty_t); J(one); J(flat); J(derived); J(ints); J(chain); J(nested); J(std::vector<std::vector<uint8_t>>); J(std::optional<std::string>); J(var); J(std::vector<flat>);
        K(bool); K(int32_t); K(i128); K(float); K(std::string); K(s8); K(std::vector<uint8_t>); K(std::vector<std::string>); K(std::list<int64_t>); K(std::map<std::string, uint8_t>); K(std::optional<int8_t>); K(std::optional<std::string>); K(var); K(derived); K(nested); K(boxes);
    }
    sample("every value is written to a growing buffer, a size counter and fixed buffers of every size around the exact one");
}
