// C26: monitors of enumeration, shared by the parts of the program.
#pragma once
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/chain_types.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/for_each_field.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/opaque.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/types.hpp>
#include <eosio/varint.hpp>
#include "nat.hpp"

using namespace nat;

namespace rt {
struct entry { std::string name; const void* at; size_t size; };
using table = std::vector<entry>;

inline void add(table& t, const char* n, const void* at, size_t size) { t.push_back({ n, at, size }); }
} // namespace rt

using rt::entry;
using rt::table;

template <typename T, typename F> void fields(F&& f) { eosio::for_each_field<T>(f); }

inline void judge(const std::string& what, const table& got, const table& want, bool names, bool at) {
    std::string g, w;
    bool ok = got.size() == want.size();
    for (size_t i = 0; i < got.size(); ++i) {
        g += " " + got[i].name;
        if (i < want.size() && ((names && got[i].name != want[i].name) || (at && (got[i].at != want[i].at || got[i].size != want[i].size)))) ok = false;
    }
    for (auto& e : want) w += " " + e.name;
    seen("enumerations", hash(what));
    note("members visited", got.size());
    if (!ok) violate(what, what + ": visited" + g + ", expected" + w + " (or another address)");
}

template <typename T> void enumerate(const char* n, T& o) {
    table want = expected(o), got;
    std::string what(n);
    bool cst = true;
    eosio::for_each_field(o, [&](auto& m) { got.push_back({ "", &m, sizeof m }); });
    judge(what + " for_each_field(obj)", got, want, false, true);
    got.clear();
    eosio::for_each_field(std::as_const(o), [&](auto& m) { got.push_back({ "", &m, sizeof m }); cst = cst && std::is_const_v<std::remove_reference_t<decltype(m)>>; });
    judge(what + " for_each_field(const obj)", got, want, false, true);
    if (!cst) violate(what + " const", what + ": a member of a const object was yielded as non-const");
    got.clear();
    eosio::for_each_field(std::move(o), [&](auto&& m) { got.push_back({ "", &m, sizeof m }); });
    judge(what + " for_each_field(rvalue)", got, want, false, true);
    got.clear();
    fields<T>([&](const char* name, auto member) { auto& m = member(&o); got.push_back({ name, &m, sizeof m }); });
    judge(what + " for_each_field<T>", got, want, true, true);
    got.clear();
    fields<T>([&](const char* name, auto member) { auto& m = member(&std::as_const(o)); got.push_back({ name, &m, sizeof m }); cst = cst && std::is_const_v<std::remove_reference_t<decltype(m)>>; });
    judge(what + " for_each_field<T> on a const object", got, want, true, true);
    if (!cst) violate(what + " const member", what + ": a member of a const object was yielded as non-const");
    // a second object: nothing remembered from the first
    if constexpr (std::is_default_constructible_v<T>) {
        auto o2 = std::make_unique<T>();
        table want2 = expected(*o2);
        got.clear();
        fields<T>([&](const char* name, auto member) { auto& m = member(o2.get()); got.push_back({ name, &m, sizeof m }); });
        judge(what + " for_each_field<T>, another object", got, want2, true, true);
    }
}

template <typename T> constexpr bool small_int = std::is_integral_v<T> && !std::is_same_v<T, bool> && sizeof(T) <= 8;

// writes through the enumeration reach exactly the named member; binary and JSON follow the same order
template <typename T> void values(const char* n) {
    std::string what(n);
    T o{};
    table want = expected(o);
    std::vector<u64> val(want.size());
    size_t i = 0;
    fields<T>([&](const char*, auto member) {
        auto& m = member(&o);
        using M = std::decay_t<decltype(m)>;
        if constexpr (small_int<M> && !std::is_const_v<std::remove_reference_t<decltype(m)>>) { val[i] = rng.next(); m = (M)val[i]; }
        ++i;
    });
    std::string bin;
    bool plain = true;
    i = 0;
    fields<T>([&](const char*, auto member) {
        using M = std::decay_t<decltype(member(&o))>;
        if constexpr (small_int<M>) {
            M copy;
            memcpy(&copy, want[i].at, sizeof copy);
            seen("members written through", hash(what) + i * 1000003 + val[i]);
            if (copy != (M)val[i]) violate(what + " write", what + ": writing member " + want[i].name + " through the enumeration did not store it");
            bin.append((const char*)&copy, sizeof copy);
        } else plain = false;
        ++i;
    });
    if (!plain) return;
    auto b = eosio::convert_to_bin(o);
    seen("binary orders", hash(bin));
    if (std::string(b.begin(), b.end()) != bin) violate(what + " binary", what + ": the binary encoding is not its members in listed order: " + hex(std::string(b.begin(), b.end())) + " vs " + hex(bin));
    T back{};
    std::string copy = bin;
    auto err = reports([&] { eosio::input_stream s(copy.data(), copy.size()); from_bin(back, s); });
    if (err) violate(what + " decode", what + ": " + *err);
    else {
        table at = expected(back);
        for (size_t k = 0; k < at.size(); ++k)
            if (memcmp(at[k].at, want[k].at, at[k].size)) violate(what + " decoded", what + ": member " + at[k].name + " was not decoded to its own place");
    }
    // JSON: names in order
    std::string js = eosio::convert_to_json(o);
    size_t pos = 0;
    std::string names, expect;
    std::vector<std::string> keys;
    for (size_t k = 0; k < js.size(); ++k)
        if (js[k] == '"') {
            size_t e = js.find('"', k + 1);
            if (e + 1 < js.size() && js[e + 1] == ':') { keys.push_back(js.substr(k + 1, e - k - 1)); }
            k = e;
        }
    (void)pos;
    bool same = keys.size() == want.size();
    for (size_t k = 0; same && k < keys.size(); ++k) same = keys[k] == want[k].name;
    seen("JSON orders", hash(js));
    if (!same) violate(what + " json", what + ": JSON members are not the listed ones in order: " + js);
    // by-name selection: one member at a time
    for (size_t k = 0; k < want.size() && k < 40; ++k) {
        size_t c = rng.below(want.size());
        T x{};
        table xt = expected(x);
        std::string text = "{\"" + want[c].name + "\":" + (xt[c].size == 8 ? "\"" : "") + std::to_string(100 + c % 27) + (xt[c].size == 8 ? "\"" : "") + "}";
        std::string buf = text + std::string(1, '\0');
        auto e = reports([&] { eosio::json_token_stream s(buf.data()); from_json(x, s); });
        seen("members selected by name", hash(what) + c);
        if (e) { violate(what + " select", what + ": " + text + ": " + *e); continue; }
        for (size_t m = 0; m < xt.size(); ++m) {
            u64 v = 0;
            memcpy(&v, xt[m].at, xt[m].size);
            if (v != (m == c ? 100 + c % 27 : 0)) violate(what + " select value", what + ": " + text + " gave member " + xt[m].name + " the value " + std::to_string(v));
        }
    }
    // names that are not listed select nothing: prefixes, extensions, other case
    for (int k = 0; k < 6 && !want.empty(); ++k) {
        auto nm = want[rng.below(want.size())].name;
        switch (rng.below(5)) {
        case 0: nm += "x"; break;
        case 1: nm = nm.substr(0, nm.size() - 1); break;
        case 2: nm = "base"; break;
        case 3: nm[0] ^= 0x20; break;
        case 4: nm = std::string(n); break;
        }
        bool listed = false;
        for (auto& w : want) listed = listed || w.name == nm;
        if (listed || nm.find('\x7f') != nm.npos) continue;
        for (char& ch : nm) if (ch < 0x20 || ch == '"' || ch == '\\') ch = 'q';
        T x{};
        table xt = expected(x);
        std::string text = "{\"" + nm + "\":1}", buf = text + std::string(1, '\0');
        bool refused = bool(reports([&] { eosio::json_token_stream s(buf.data()); from_json(x, s); }));
        seen("unlisted names", hash(what + nm));
        if (refused) note("unlisted names refused");
        for (auto& m : xt) {
            u64 v = 0;
            memcpy(&v, m.at, m.size);
            if (v) violate(what + " unlisted", what + ": " + text + " changed member " + m.name);
        }
    }
}

void wide_types();
void library_types();
