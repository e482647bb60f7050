// C26: the library's own reflected types and type names
#include "nat_reflect.hpp"

namespace rt { struct none {}; EOSIO_REFLECT(none) struct only_base : none {}; EOSIO_REFLECT(only_base, base none) struct unlisted { int a; }; }

template <typename T> void lib(const char* n, const char* own, std::vector<std::string> names) {
    std::vector<std::string> got;
    auto o = std::make_unique<T>();
    std::vector<const void*> at1, at2;
    if (!eosio::reflection::has_for_each_field_v<T>) violate(std::string(n) + " reflected", std::string(n) + " does not count as reflected");
    fields<T>([&](const char* name, auto member) { got.push_back(name); auto& m = member(o.get()); at1.push_back(&m);
        if ((const char*)&m < (const char*)o.get() || (const char*)(&m + 1) > (const char*)(o.get() + 1)) violate(std::string(n) + " outside", std::string(n) + ": member " + name + " lies outside the object"); });
    eosio::for_each_field(*o, [&](auto& m) { at2.push_back(&m); });
    seen("library types", hash(n));
    note("library members visited", got.size());
    std::string g, w;
    for (auto& x : got) g += " " + x;
    for (auto& x : names) w += " " + x;
    if (got != names) violate(std::string(n) + " names", std::string(n) + ": lists" + g + ", published" + w);
    if (at1 != at2) violate(std::string(n) + " places", std::string(n) + ": the two enumerations disagree about addresses");
    if (std::set<const void*>(at1.begin(), at1.end()).size() != at1.size()) violate(std::string(n) + " twice", std::string(n) + ": a member is visited twice");
    int m = 0;
    eosio::for_each_method<T>([&](const char*, auto) { ++m; });
    if (m) violate(std::string(n) + " methods", std::string(n) + ": reports methods");
    using eosio::get_type_name;
    std::string tn = get_type_name((T*)nullptr);
    if (tn != own) violate(std::string(n) + " type name", std::string(n) + ": type name is " + tn);
}

template <typename T> void type_name(const std::string& want) {
    using eosio::get_type_name;
    std::string got = get_type_name((T*)nullptr);
    seen("type names", hash(want));
    if (got != want) violate("type name " + want, "type name of " + want + " is " + got);
}

void library_types() {
    using namespace rt;
#define X(T, N, ...) lib<T>(#T, N, { __VA_ARGS__ });
#include "nat_reflect_lib.hpp"
        if (eosio::reflection::has_for_each_field_v<unlisted> || eosio::reflection::has_for_each_field_v<int> || eosio::reflection::has_for_each_field_v<std::string>) violate("not reflected", "a type that lists no members counts as reflected");
        if (!eosio::reflection::has_for_each_field_v<none> || !eosio::reflection::has_for_each_field_v<only_base>) violate("reflected", "a reflected type without members does not count as reflected");
        type_name<bool>("bool"); type_name<int8_t>("int8"); type_name<uint8_t>("uint8"); type_name<int16_t>("int16"); type_name<uint16_t>("uint16"); type_name<int32_t>("int32"); type_name<uint32_t>("uint32");
        type_name<int64_t>("int64"); type_name<uint64_t>("uint64"); type_name<__int128>("int128"); type_name<unsigned __int128>("uint128"); type_name<float>("float32"); type_name<double>("float64"); type_name<std::string>("string");
        type_name<std::vector<uint8_t>>("uint8[]"); type_name<std::optional<int64_t>>("int64?"); type_name<std::vector<std::string>>("string[]"); type_name<std::optional<std::string>>("string?");
        type_name<std::variant<uint8_t>>("variant_uint8"); type_name<std::variant<uint8_t, std::string>>("variant_uint8_string"); type_name<std::variant<double, int8_t, bool, float>>("variant_float64_int8_bool_float32");
        type_name<std::variant<std::vector<uint8_t>, std::optional<bool>>>("variant_uint8[]_bool?");
}
