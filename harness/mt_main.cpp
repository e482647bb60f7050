// Runs several operation scripts at once, one per thread, and again one after another; logs where an outcome differs.
// usage: mt OPS LOG SEED.  OPS: a prologue run by the main thread, then "T" lines each starting a thread's script.
#include "vh.hpp"
#include <abieos.hpp>
#include <eosio/ship_protocol.hpp>
#include <atomic>
#include <exception>
#include <fstream>
#include <sched.h>
#include <thread>

namespace vh {
std::map<std::string, handler>& handlers() {
    static std::map<std::string, handler> h;
    return h;
}
void alloc_reset() {}
alloc_stats alloc_get() { return {}; }
} // namespace vh
using namespace vh;

namespace {
// what the prologue makes and all threads read
std::map<std::string, std::pair<std::unique_ptr<eosio::abi_def>, std::unique_ptr<eosio::abi>>> shared_abis;
std::map<std::string, const eosio::abi_type*> shared_types;
std::map<std::string, std::function<std::string()>> shared_values;

reg r_shabi("shabi", [](const args& a) {
    auto buf = a[1].cstr();
    eosio::json_token_stream s(buf.get());
    auto d = std::make_unique<eosio::abi_def>();
    from_json(*d, s);
    auto c = std::make_unique<eosio::abi>();
    eosio::convert(*d, *c);
    shared_abis[a[0].s] = {std::move(d), std::move(c)};
    return out::ok();
});
reg r_shtype("shtype", [](const args& a) { // key, abi, type
    shared_types[a[0].s] = shared_abis.at(a[1].s).second->get_type(a[2].s);
    return out::ok();
});
template <typename T> void share(const std::string& key, const arg& bin) {
    auto buf = std::make_shared<std::string>(bin.s);
    eosio::input_stream s(buf->data(), buf->data() + buf->size());
    auto v = std::make_shared<T>();
    from_bin(*v, s);
    shared_values[key] = [v, buf] {
        const T& x = *v;
        T copy = x;
        return str(eosio::convert_to_bin(x)) + eosio::convert_to_json(x) + eosio::format_json(x) + str(eosio::convert_to_bin(copy));
    };
}
reg r_shval("shval", [](const args& a) { // key, kind, bin
    auto& k = a[1].s;
    if (k == "asset") share<std::vector<eosio::asset>>(a[0].s, a[2]);
    else if (k == "name") share<std::vector<eosio::name>>(a[0].s, a[2]);
    else if (k == "key") share<std::vector<eosio::public_key>>(a[0].s, a[2]);
    else if (k == "sig") share<std::vector<eosio::signature>>(a[0].s, a[2]);
    else if (k == "time") share<std::vector<eosio::time_point>>(a[0].s, a[2]);
    else if (k == "float") share<std::vector<double>>(a[0].s, a[2]);
    else if (k == "string") share<std::vector<std::string>>(a[0].s, a[2]);
    else if (k == "trace") share<eosio::ship_protocol::transaction_trace>(a[0].s, a[2]);
    else throw std::runtime_error("HARNESS: no such kind");
    return out::ok();
});
reg r_sj2b("sj2b", [](const args& a) {
    auto b = a[1].cstr();
    return out::ok(str(shared_types.at(a[0].s)->json_to_bin({b.get(), a[1].s.size()})));
});
reg r_sj2r("sj2r", [](const args& a) {
    auto b = a[1].cstr();
    return out::ok(str(shared_types.at(a[0].s)->json_to_bin_reorderable({b.get(), a[1].s.size()})));
});
reg r_sb2j("sb2j", [](const args& a) {
    auto b = a[1].raw();
    eosio::input_stream s(b.get(), a[1].s.size());
    auto r = shared_types.at(a[0].s)->bin_to_json(s);
    return out::ok(r, std::to_string(s.remaining()));
});
reg r_sload("sload", [](const args& a) { // loads and exports from the shared definition
    const auto& d = *shared_abis.at(a[0].s).first;
    eosio::abi c;
    eosio::abi_def e{};
    eosio::convert(d, c);
    eosio::convert(static_cast<const eosio::abi&>(c), e);
    return out::ok(str(eosio::convert_to_bin(e)), str(eosio::convert_to_bin(d)));
});
reg r_sexp("sexp", [](const args& a) {
    eosio::abi_def e{};
    eosio::convert(static_cast<const eosio::abi&>(*shared_abis.at(a[0].s).second), e);
    return out::ok(str(eosio::convert_to_bin(e)));
});
reg r_sval("sval", [](const args& a) { return out::ok(shared_values.at(a[0].s)()); });

struct opn { const handler* h; args as; std::string name; };
std::string call(const opn& o) {
    try { return (*o.h)(o.as); } catch (const std::exception& e) { return out::err(e.what()); }
}
std::atomic<int> ready{0};
std::atomic<bool> go{false};
std::atomic<uint32_t> ticket{0};
} // namespace

int main(int argc, char** argv) {
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    std::vector<std::vector<opn>> threads;
    std::string line;
    while (std::getline(in, line)) {
        if (line == "T") { threads.emplace_back(); continue; }
        opn o;
        o.name = parse(line, o.as);
        auto it = handlers().find(o.name);
        if (it == handlers().end()) { fprintf(stderr, "unknown op %s\n", o.name.c_str()); return 2; }
        o.h = &it->second;
        if (threads.empty()) {
            auto r = call(o);
            if (r[0] != 'K') { fprintf(stderr, "prologue %s: %s\n", line.c_str(), r.c_str()); return 2; }
        } else threads.back().push_back(std::move(o));
    }
    size_t n = threads.size();
    std::vector<std::vector<std::string>> first(n), alone(n);
    std::vector<std::vector<uint32_t>> when(n);
    {
        std::vector<std::thread> ts;
        for (size_t k = 0; k < n; ++k) {
            first[k].reserve(threads[k].size());
            when[k].reserve(threads[k].size());
            ts.emplace_back([&, k] {
                uint64_t x = seed * 7919 + k * 104729 + 1;
                ready.fetch_add(1, std::memory_order_relaxed);
                while (!go.load(std::memory_order_relaxed)) sched_yield();
                for (auto& o : threads[k]) {
                    x = x * 6364136223846793005ull + 1442695040888963407ull;
                    switch (x >> 61) {
                    case 0: sched_yield(); break;
                    case 1: for (volatile int i = 0; i < int(x >> 48 & 2047); ++i) {} break;
                    }
                    when[k].push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                    first[k].push_back(call(o));
                }
            });
        }
        while (ready.load(std::memory_order_relaxed) < int(n)) sched_yield();
        go.store(true, std::memory_order_relaxed);
        for (auto& t : ts) t.join();
    }
    for (size_t k = 0; k < n; ++k)
        std::thread([&] { for (auto& o : threads[k]) alone[k].push_back(call(o)); }).join();
    FILE* f = fopen(argv[2], "w");
    if (!f) return 2;
    size_t ops = 0;
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < threads[k].size(); ++i, ++ops)
            fprintf(f, "%zu %zu %u %s %s\t%s\n", k, i, when[k][i], threads[k][i].name.c_str(), first[k][i].c_str(), first[k][i] == alone[k][i] ? "=" : alone[k][i].c_str());
    fprintf(f, "END %zu\n", ops);
    fclose(f);
    return 0;
}
