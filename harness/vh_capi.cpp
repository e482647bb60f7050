// Operations over the C interface.
#include "vh.hpp"
#include "eosio/abieos.h"
#include <abieos.hpp>
#include <stdexcept>

using namespace vh;
namespace {
struct slot {
    abieos_context* c = nullptr;
    const char* last = nullptr; // last string returned to the caller, and what it said
    std::string last_copy;
};
struct store : std::map<uint64_t, slot> { ~store() { for (auto& s : *this) abieos_destroy(s.second.c); } };
thread_local store slots; // (one process may run several scripts, each in its own thread)
thread_local slot null_slot;

slot& S(const arg& a) {
    if (a.null) return null_slot;
    auto it = slots.find(a.num());
    if (it == slots.end()) throw std::runtime_error("HARNESS: no such context");
    return it->second;
}
std::string fail(slot& s) { return out::err(abieos_get_error(s.c)); }
std::string str_result(slot& s, const char* r) {
    if (!r) return fail(s);
    s.last = r;
    s.last_copy = r;
    return out::ok(s.last_copy);
}
std::string bin_of(slot& s) {
    int n = abieos_get_bin_size(s.c);
    const char* d = abieos_get_bin_data(s.c);
    return n > 0 ? std::string(d, n) : std::string();
}

reg r_ctx("ctx", [](const args& a) {
    auto& s = slots[a[0].num()];
    if (s.c) abieos_destroy(s.c);
    s = slot{};
    s.c = abieos_create();
    return s.c ? out::ok() : out::err("create failed");
});
reg r_del("del", [](const args& a) {
    if (a[0].null) { abieos_destroy(nullptr); return out::ok(); }
    auto it = slots.find(a[0].num());
    if (it != slots.end()) { abieos_destroy(it->second.c); slots.erase(it); }
    return out::ok();
});
reg r_abi("abi", [](const args& a) {
    auto& s = S(a[0]);
    auto j = a[2].cstr();
    return abieos_set_abi(s.c, a[1].num(), j.get()) ? out::ok() : fail(s);
});
// with null data, a size may follow, which then says nothing
size_t size_of(const args& a, size_t i) { return a[i].null && a.size() > i + 1 ? a[i + 1].num() : a[i].s.size(); }
reg r_abib("abib", [](const args& a) {
    auto& s = S(a[0]);
    auto d = a[2].raw();
    return abieos_set_abi_bin(s.c, a[1].num(), d.get(), size_of(a, 2)) ? out::ok() : fail(s);
});
reg r_abih("abih", [](const args& a) {
    auto& s = S(a[0]);
    auto j = a[2].cstr();
    return abieos_set_abi_hex(s.c, a[1].num(), j.get()) ? out::ok() : fail(s);
});
// loads a definition through the C++ interface, exports it, and loads the exported definition
reg r_axl("axl", [](const args& a) {
    auto& s = S(a[0]);
    auto buf = a[2].cstr();
    eosio::json_token_stream js(buf.get());
    eosio::abi_def d{}, e{};
    from_json(d, js);
    eosio::abi c;
    eosio::convert(d, c);
    eosio::convert(c, e);
    auto b = eosio::convert_to_bin(e);
    return abieos_set_abi_bin(s.c, a[1].num(), b.data(), b.size()) ? out::ok() : fail(s);
});
// JSON -> binary; on success also reads the result back through all three accessors
std::string j2b(slot& s, bool okay) {
    if (!okay) return fail(s);
    std::string bin = bin_of(s);
    const char* h = abieos_get_bin_hex(s.c);
    if (!h) return out::err("HARNESS: no hex");
    s.last = h;
    s.last_copy = h;
    return out::ok(bin, s.last_copy);
}
reg r_j2b("j2b", [](const args& a) {
    auto& s = S(a[0]);
    auto t = a[2].cstr(); auto j = a[3].cstr();
    return j2b(s, abieos_json_to_bin(s.c, a[1].num(), t.get(), j.get()));
});
reg r_j2r("j2r", [](const args& a) {
    auto& s = S(a[0]);
    auto t = a[2].cstr(); auto j = a[3].cstr();
    return j2b(s, abieos_json_to_bin_reorderable(s.c, a[1].num(), t.get(), j.get()));
});
reg r_b2j("b2j", [](const args& a) {
    auto& s = S(a[0]);
    auto t = a[2].cstr(); auto d = a[3].raw();
    return str_result(s, abieos_bin_to_json(s.c, a[1].num(), t.get(), d.get(), size_of(a, 3)));
});
reg r_h2j("h2j", [](const args& a) {
    auto& s = S(a[0]);
    auto t = a[2].cstr(); auto h = a[3].cstr();
    return str_result(s, abieos_hex_to_json(s.c, a[1].num(), t.get(), h.get()));
});
reg r_err("err", [](const args& a) {
    const char* e = abieos_get_error(S(a[0]).c);
    return e ? out::ok(e) : out::err("HARNESS: null error");
});
reg r_size("size", [](const args& a) { return out::ok(std::to_string(abieos_get_bin_size(S(a[0]).c))); });
reg r_data("data", [](const args& a) { return out::ok(bin_of(S(a[0]))); });
reg r_nulldata("isnull", [](const args& a) { return out::ok(abieos_get_bin_data(S(a[0]).c) ? "0" : "1"); });
reg r_hex("hex", [](const args& a) { auto& s = S(a[0]); return str_result(s, abieos_get_bin_hex(s.c)); });
reg r_s2n("s2n", [](const args& a) {
    auto& s = S(a[0]);
    auto t = a[1].cstr();
    return out::ok(std::to_string(abieos_string_to_name(s.c, t.get())));
});
reg r_n2s("n2s", [](const args& a) { auto& s = S(a[0]); return str_result(s, abieos_name_to_string(s.c, a[1].num())); });
reg r_act("act", [](const args& a) {
    auto& s = S(a[0]);
    const char* r = abieos_get_type_for_action(s.c, a[1].num(), a[2].num());
    return r ? out::ok(r) : fail(s);
});
reg r_tab("tab", [](const args& a) {
    auto& s = S(a[0]);
    const char* r = abieos_get_type_for_table(s.c, a[1].num(), a[2].num());
    return r ? out::ok(r) : fail(s);
});
// the last string handed to the caller must still be readable and unchanged
reg r_peek("peek", [](const args& a) {
    auto& s = S(a[0]);
    if (!s.last) return out::ok("none");
    return out::ok(s.last == s.last_copy ? "same" : "changed");
});
reg r_forget("forget", [](const args& a) { S(a[0]).last = nullptr; return out::ok(); });
} // namespace
