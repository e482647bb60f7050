// The types of a loaded ABI, inspected and used through the C++ interface.
#include "vh.hpp"
#include <eosio/abi.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <set>

using namespace vh;
namespace {

struct loaded {
    eosio::abi a;
    std::map<std::string, const eosio::abi_type*> first; // what each name gave when it was first asked for
};
thread_local std::map<uint64_t, std::unique_ptr<loaded>> slots;

std::string describe(const eosio::abi_type* t, int depth) {
    if (!t) return "null";
    int kinds = 0;
    std::string r;
    auto members = [&](const std::vector<eosio::abi_field>& fs) {
        r += t->name + "{";
        if (depth > 0)
            for (auto& f : fs) r += f.name + "=" + describe(f.type, depth - 1) + ",";
        else
            r += std::to_string(fs.size());
        r += "}";
    };
    if (auto* x = t->optional_of()) ++kinds, r += "?(" + describe(x, depth) + ")";
    if (auto* x = t->array_of()) ++kinds, r += "[](" + describe(x, depth) + ")";
    if (auto* x = t->extension_of()) ++kinds, r += "$(" + describe(x, depth) + ")";
    if (auto* x = t->as_struct()) ++kinds, r += "s:", members(x->fields);
    if (auto* x = t->as_variant()) ++kinds, r += "v:", members(*x);
    if (!kinds) r = "b:" + t->name;
    return kinds > 1 ? "several:" + r : r;
}

reg r_load("tload", [](const args& a) {
    auto l = std::make_unique<loaded>();
    {
        auto buf = a[1].cstr();
        eosio::json_token_stream s(buf.get());
        auto d = std::make_unique<eosio::abi_def>();
        from_json(*d, s);
        eosio::convert(*d, l->a);
    } // the definition and its text are gone
    slots[a[0].num()] = std::move(l);
    return out::ok();
});
reg r_loadb("tloadb", [](const args& a) {
    auto l = std::make_unique<loaded>();
    {
        auto buf = a[1].raw();
        eosio::input_stream s(buf.get(), a[1].s.size());
        auto d = std::make_unique<eosio::abi_def>();
        from_bin(*d, s);
        eosio::convert(*d, l->a);
    }
    slots[a[0].num()] = std::move(l);
    return out::ok();
});
// tmove <from> <to>: the ABI is moved elsewhere, its types stay
reg r_move("tmove", [](const args& a) {
    auto l = std::make_unique<loaded>();
    auto& from = *slots.at(a[0].num());
    l->a = std::move(from.a);
    l->first = std::move(from.first);
    slots.erase(a[0].num());
    slots[a[1].num()] = std::move(l);
    return out::ok();
});
reg r_desc("tdesc", [](const args& a) {
    auto& l = *slots.at(a[0].num());
    auto* t = l.a.get_type(a[1].s);
    l.first.emplace(a[1].s, t);
    return out::ok(describe(t, int(a[2].num())));
});
// the types obtained earlier, all of them
reg r_again("tagain", [](const args& a) {
    auto& l = *slots.at(a[0].num());
    std::string r;
    for (auto& [n, t] : l.first) r += n + "=" + describe(t, int(a[1].num())) + ";";
    return out::ok(r);
});
reg r_maps("tmaps", [](const args& a) {
    auto& l = *slots.at(a[0].num());
    std::string x, y;
    for (auto& [n, t] : l.a.action_types) x += std::to_string(n.value) + "=" + t + ";";
    for (auto& [n, t] : l.a.table_types) y += std::to_string(n.value) + "=" + t + ";";
    return out::ok(x, y);
});
// tseq <slot> <data> <type>...: values that follow one another in one stream; each with the position after it
reg r_seq("tseq", [](const args& a) {
    auto& l = *slots.at(a[0].num());
    auto b = a[1].raw();
    size_t size = a[1].s.size();
    eosio::input_stream s(b.get(), size);
    std::string r;
    for (size_t i = 2; i < a.size(); ++i) {
        std::string j;
        try {
            j = l.a.get_type(a[i].s)->bin_to_json(s);
        } catch (const std::exception& e) {
            r += "fail";
            break;
        }
        r += std::to_string(size - s.remaining()) + ":" + hex(j) + ";";
    }
    return out::ok(r);
});
// tjson <slot> <type> <json> <reorderable?>
reg r_json("tjson", [](const args& a) {
    auto& l = *slots.at(a[0].num());
    auto* t = l.a.get_type(a[1].s);
    auto b = a[2].raw();
    std::string_view sv(b.get(), a[2].s.size());
    auto r = a[3].num() ? t->json_to_bin_reorderable(sv) : t->json_to_bin(sv);
    b.reset();
    return out::ok(str(r));
});

} // namespace
