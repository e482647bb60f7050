// Allocation failures injected into calls of the library: at one point, or from one point on.
#include "vh.hpp"
#include "eosio/abieos.h"
#include <abieos.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/ship_protocol.hpp>
#include <new>
#include <stdexcept>

namespace {
// armed only while a call of the library runs
thread_local bool armed, lasting;
thread_local uint64_t seen, fail_at, fired;

bool refuse() {
    if (!armed) return false;
    ++seen;
    if (seen == fail_at || (lasting && seen > fail_at)) {
        ++fired;
        return true;
    }
    return false;
}
void* give(size_t n) {
    if (refuse()) throw std::bad_alloc{};
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc{};
    return p;
}
} // namespace
void* operator new(size_t n) { return give(n); }
void* operator new[](size_t n) { return give(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

using namespace vh;
namespace {

struct arm {
    arm(uint64_t at, bool from) { seen = fired = 0; fail_at = at; lasting = from; armed = true; }
    ~arm() { armed = false; }
};

// what a call gave: its value, or that it failed
struct outcome {
    bool ok = false;
    std::string value;
    bool operator==(const outcome& o) const { return ok == o.ok && value == o.value; }
};

struct bad : std::runtime_error { using std::runtime_error::runtime_error; };

// Runs f with the allocation failing at every point in turn (at most `most` points, spread over all); check() follows each.
// f(slot) performs the call; its result is copied by `read`, which is not disturbed.
template <typename F, typename G, typename H>
std::string every_point(uint64_t most, F f, G after, H before) {
    uint64_t runs = 0, failures = 0, survived = 0, points = 0;
    {
        arm a(0, false);
        f(false);
        points = seen;
        armed = false;
    }
    for (int from = 0; from < 2; ++from)
        for (uint64_t k = 0, n = std::min(points, most); k < n; ++k) {
            uint64_t at = points <= most ? k + 1 : 1 + k * points / n;
            bool ok;
            uint64_t hits;
            before();
            {
                arm a(at, from);
                ok = f(true);
                armed = false;
                hits = fired;
            }
            ++runs;
            if (hits) ++(ok ? survived : failures);
            after(ok, hits, "allocation " + std::to_string(at) + (from ? " and all after it" : ""));
        }
    return std::to_string(points) + " " + std::to_string(runs) + " " + std::to_string(failures) + " " + std::to_string(survived);
}

template <typename F, typename G>
std::string every_point(uint64_t most, F f, G after) { return every_point(most, f, after, [] {}); }

struct contexts : std::map<uint64_t, abieos_context*> { ~contexts() { for (auto& c : *this) abieos_destroy(c.second); } };
thread_local contexts ctxs;

reg r_ctx("fctx", [](const args& a) {
    auto& c = ctxs[a[0].num()];
    abieos_destroy(c);
    c = nullptr;
    auto n = every_point(50, [&](bool) {
        auto* x = abieos_create();
        abieos_destroy(x);
        return x != nullptr;
    }, [&](bool ok, uint64_t hits, const std::string& w) { if (ok && hits) throw bad("a context was created although " + w + " failed"); });
    c = abieos_create();
    return c ? out::ok("", n) : out::err("create failed");
});

bool load(abieos_context* c, uint64_t n, const std::string& how, const char* d, size_t size) {
    if (how == "json") return abieos_set_abi(c, n, d);
    if (how == "hex") return abieos_set_abi_hex(c, n, d);
    return abieos_set_abi_bin(c, n, d, size);
}
// fload <ctx> <contract> <how> <data> <most>
reg r_load("fload", [](const args& a) {
    auto* c = ctxs.at(a[0].num());
    uint64_t n = a[1].num();
    auto d = a[3].cstr();
    // the points are counted on another context
    auto* other = abieos_create();
    uint64_t next = 0;
    auto s = every_point(a[4].num(), [&](bool real) { return load(real ? c : other, real ? n + next : 1, a[2].s, d.get(), a[3].s.size()); },
        [&](bool ok, uint64_t hits, const std::string& w) {
            if (!ok && !abieos_get_error(c)) throw bad("no error text");
            // what was not loaded is not there
            bool there = abieos_json_to_bin(c, n + next, "uint8", "1");
            if (there != ok) throw bad(std::string("the call ") + (ok ? "succeeded" : "failed") + " with " + w + " failing, and the contract is " + (there ? "loaded" : "not loaded"));
            if (ok) ++next;
        });
    abieos_destroy(other);
    if (!load(c, n + 100000, a[2].s, d.get(), a[3].s.size())) return out::err((std::string("cannot be loaded afterwards: ") + abieos_get_error(c)).c_str());
    // what was loaded in between works too
    return out::ok("", s + " " + std::to_string(next));
});

// fcall <ctx> <contract> <call> <type> <data> <most>: the undisturbed result is the first field
reg r_call("fcall", [](const args& a) {
    auto* c = ctxs.at(a[0].num());
    uint64_t n = a[1].num();
    auto type = a[3].cstr();
    auto data = a[4].cstr();
    size_t size = a[4].s.size();
    const std::string& k = a[2].s;
    const char* r = nullptr;
    auto call = [&](bool) -> bool {
        r = nullptr;
        if (k == "j2b") return abieos_json_to_bin(c, n, type.get(), data.get());
        if (k == "j2r") return abieos_json_to_bin_reorderable(c, n, type.get(), data.get());
        if (k == "b2j") return r = abieos_bin_to_json(c, n, type.get(), data.get(), size);
        if (k == "h2j") return r = abieos_hex_to_json(c, n, type.get(), data.get());
        if (k == "hex") return r = abieos_get_bin_hex(c);
        if (k == "n2s") return r = abieos_name_to_string(c, a[4].num());
        if (k == "act") return r = abieos_get_type_for_action(c, n, a[4].num());
        return r = abieos_get_type_for_table(c, n, a[4].num());
    };
    auto result = [&](bool ok) {
        outcome o{ok, {}};
        if (!ok) return o;
        if (r) o.value = r;
        else if (int s = abieos_get_bin_size(c)) o.value.assign(abieos_get_bin_data(c), s);
        return o;
    };
    // the binary result that stands while text is asked for
    outcome want = result(call(false));
    std::string bin(abieos_get_bin_data(c) ? abieos_get_bin_data(c) : "", abieos_get_bin_size(c));
    auto s = every_point(a[5].num(), call, [&](bool ok, uint64_t hits, const std::string& w) {
        outcome got = result(ok);
        if (!ok && !abieos_get_error(c)) throw bad("no error text");
        if (ok && !(got == want)) throw bad("with " + w + " failing the call gives " + hex(got.value) + " instead of " + hex(want.value));
        if (!hits && !(got == want)) throw bad("the call differs from the one before");
        if (k != "j2b" && k != "j2r" && bin != std::string(abieos_get_bin_data(c) ? abieos_get_bin_data(c) : "", abieos_get_bin_size(c))) throw bad("the binary result has changed");
        // and now undisturbed
        got = result(call(false));
        if (!(got == want)) throw bad("after " + w + " had failed the same call gives " + (got.ok ? hex(got.value) : "failure") + " instead of " + (want.ok ? hex(want.value) : "failure"));
    });
    return want.ok ? out::ok(want.value, s) : out::ok("failure", s, "f");
});

// ffresh <abi> <call> <type> <data> <most>: each run on a context of its own, so that nothing is there yet
reg r_fresh("ffresh", [](const args& a) {
    const std::string& k = a[1].s;
    auto type = a[2].cstr();
    auto data = a[3].cstr();
    size_t size = a[3].s.size();
    abieos_context* c = nullptr;
    struct owner { abieos_context*& c; ~owner() { abieos_destroy(c); } } own{c};
    auto prepare = [&] {
        abieos_destroy(c);
        c = abieos_create();
        if (!abieos_set_abi(c, 1, a[0].s.c_str())) throw bad("load");
        if (k == "hex" && !abieos_json_to_bin(c, 1, type.get(), data.get())) throw bad("convert");
    };
    const char* r = nullptr;
    auto call = [&](bool) -> bool {
        r = nullptr;
        if (k == "j2b") return abieos_json_to_bin(c, 1, type.get(), data.get());
        if (k == "j2r") return abieos_json_to_bin_reorderable(c, 1, type.get(), data.get());
        if (k == "b2j") return r = abieos_bin_to_json(c, 1, type.get(), data.get(), size);
        if (k == "h2j") return r = abieos_hex_to_json(c, 1, type.get(), data.get());
        return r = abieos_get_bin_hex(c);
    };
    auto result = [&](bool ok) {
        outcome o{ok, {}};
        if (!ok) return o;
        if (r) o.value = r;
        else if (int s = abieos_get_bin_size(c)) o.value.assign(abieos_get_bin_data(c), s);
        return o;
    };
    prepare();
    outcome want = result(call(false));
    prepare();
    auto s = every_point(a[4].num(), call, [&](bool ok, uint64_t hits, const std::string& w) {
        outcome got = result(ok);
        if (!ok && !abieos_get_error(c)) throw bad("no error text");
        if (ok && !(got == want)) throw bad("with " + w + " failing the call gives " + hex(got.value) + " instead of " + hex(want.value));
        if (!hits && !(got == want)) throw bad("the call differs from the one before");
        for (int i = 0; i < 2; ++i) {
            got = result(call(false));
            if (!(got == want)) throw bad("after " + w + " had failed the same call gives " + (got.ok ? hex(got.value) : "failure") + " instead of " + (want.ok ? hex(want.value) : "failure"));
        }
    }, prepare);
    return want.ok ? out::ok(want.value, s) : out::ok("failure", s, "f");
});

// the same for conversions of C++ values: fnat <what> <data> <most>
template <typename F>
std::string native(uint64_t most, F f) { // f: the conversion, giving its result or throwing
    auto run = [&](outcome& o) {
        try {
            o.value.clear();
            f(o.value);
            o.ok = true;
        } catch (const std::exception&) { o.ok = false; }
        return o.ok;
    };
    outcome want, got;
    run(want);
    auto s = every_point(most, [&](bool) { return run(got); }, [&](bool ok, uint64_t hits, const std::string& w) {
        if (ok && !(got == want)) throw bad("with " + w + " failing the result is " + hex(got.value) + " instead of " + hex(want.value));
        outcome again;
        run(again);
        if (!(again == want)) throw bad("after " + w + " had failed the result is " + (again.ok ? hex(again.value) : "failure"));
    });
    return want.ok ? out::ok(want.value, s) : out::ok("failure", s, "f");
}
template <typename T>
std::string bin_into_used(const arg& a, uint64_t most) {
    auto b = a.raw();
    T obj{}; // filled again and again, also after a failure
    return native(most, [&](std::string& r) {
        eosio::input_stream s(b.get(), a.s.size());
        from_bin(obj, s);
        std::vector<char> v = eosio::convert_to_bin(obj);
        r.assign(v.data(), v.size());
    });
}
template <typename T>
std::string json_into_used(const arg& a, uint64_t most) {
    T obj{};
    return native(most, [&](std::string& r) {
        std::string text = a.s;
        eosio::json_token_stream s(text.data());
        from_json(obj, s);
        std::vector<char> v = eosio::convert_to_bin(obj);
        r.assign(v.data(), v.size());
    });
}
template <typename T>
std::string bin_json(const arg& a, uint64_t most) { // binary -> value -> JSON
    auto b = a.raw();
    return native(most, [&](std::string& r) {
        eosio::input_stream s(b.get(), a.s.size());
        T obj{};
        from_bin(obj, s);
        r = eosio::convert_to_json(obj);
    });
}
namespace sh = eosio::ship_protocol;
const std::map<std::string, std::string (*)(const arg&, uint64_t)> natives = {
    {"abi_def/bin", bin_into_used<eosio::abi_def>},
    {"abi_def/json", json_into_used<eosio::abi_def>},
    {"ship_result/bin", bin_into_used<sh::result>},
    {"ship_request/bin", bin_into_used<sh::request>},
    {"ship_request/json", bin_json<sh::request>},
    {"ship_trace/bin", bin_into_used<sh::transaction_trace>},
    {"ship_block/bin", bin_into_used<sh::signed_block_variant>},
    {"ship_delta/bin", bin_into_used<sh::table_delta>},
    {"ship_transaction/bin", bin_into_used<sh::transaction>},
    {"ship_transaction/json", bin_json<sh::transaction>},
    {"public_key/text", [](const arg& a, uint64_t most) { return native(most, [&](std::string& r) { r = eosio::public_key_to_string(eosio::public_key_from_string(a.s)); }); }},
    {"signature/text", [](const arg& a, uint64_t most) { return native(most, [&](std::string& r) { r = eosio::signature_to_string(eosio::signature_from_string(a.s)); }); }},
    {"private_key/text", [](const arg& a, uint64_t most) { return native(most, [&](std::string& r) { r = eosio::private_key_to_string(eosio::private_key_from_string(a.s)); }); }},
};
reg r_nat("fnat", [](const args& a) { return natives.at(a[0].s)(a[1], a[2].num()); });

} // namespace
