// Operations over the compiled C++ types and helper functions.
#include "vh.hpp"
#include <abieos.hpp>
#include <eosio/name.hpp>
#include <eosio/abieos_ripemd160.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/asset.hpp>
#include <eosio/from_string.hpp>
#include <deque>
#include <list>
#include <map>
#include <set>

using namespace vh;
namespace {

template <typename T>
std::string nj(const arg& json) {
    auto buf = json.cstr();
    eosio::json_token_stream s(buf.get());
    T v{};
    using eosio::from_json;
    from_json(v, s);
    s.get_end();
    buf.reset();
    return out::ok(str(eosio::convert_to_bin(v)), eosio::convert_to_json(v), eosio::format_json(v));
}
template <typename T>
std::string nb(const arg& bin) {
    auto buf = bin.raw();
    eosio::input_stream s(buf.get(), bin.s.size());
    T v{};
    from_bin(v, s);
    if (s.remaining()) return out::err("extra data");
    buf.reset();
    return out::ok(str(eosio::convert_to_bin(v)), eosio::convert_to_json(v), eosio::format_json(v));
}

using two = std::pair<std::string (*)(const arg&), std::string (*)(const arg&)>;
template <typename T> two both() { return {&nj<T>, &nb<T>}; }

const std::map<std::string, two>& natives() {
    static const std::map<std::string, two> m{
        {"bool", both<bool>()}, {"int8", both<int8_t>()}, {"uint8", both<uint8_t>()},
        {"int16", both<int16_t>()}, {"uint16", both<uint16_t>()}, {"int32", both<int32_t>()},
        {"uint32", both<uint32_t>()}, {"int64", both<int64_t>()}, {"uint64", both<uint64_t>()},
        {"int128", both<abieos::int128>()}, {"uint128", both<abieos::uint128>()},
        {"varuint32", both<eosio::varuint32>()}, {"varint32", both<eosio::varint32>()},
        {"float32", both<float>()}, {"float64", both<double>()}, {"float128", both<eosio::float128>()},
        {"time_point", both<eosio::time_point>()}, {"time_point_sec", both<eosio::time_point_sec>()},
        {"block_timestamp_type", both<eosio::block_timestamp>()}, {"name", both<eosio::name>()},
        {"bytes", both<eosio::bytes>()}, {"string", both<std::string>()},
        {"checksum160", both<eosio::checksum160>()}, {"checksum256", both<eosio::checksum256>()},
        {"checksum512", both<eosio::checksum512>()}, {"public_key", both<eosio::public_key>()},
        {"private_key", both<eosio::private_key>()}, {"signature", both<eosio::signature>()},
        {"symbol", both<eosio::symbol>()}, {"symbol_code", both<eosio::symbol_code>()},
        {"asset", both<eosio::asset>()}, {"extended_asset", both<eosio::extended_asset>()},
        {"string[]", both<std::vector<std::string>>()}, {"int16[]", both<std::vector<int16_t>>()},
        {"uint64?", both<std::optional<uint64_t>>()}, {"asset[]", both<std::vector<eosio::asset>>()},
    };
    return m;
}

reg r_nj("nj", [](const args& a) { return natives().at(a[0].s).first(a[1]); });
reg r_nb("nb", [](const args& a) { return natives().at(a[0].s).second(a[1]); });

// decoding only, for containers: how much memory does it take?
template <typename T>
std::string nd(const arg& bin) {
    auto buf = bin.raw();
    eosio::input_stream s(buf.get(), bin.s.size());
    T v{};
    from_bin(v, s);
    if (s.remaining()) return out::err("extra data");
    return out::ok();
}
const std::map<std::string, std::string (*)(const arg&)>& decoders() {
    using str = std::string;
    namespace sh = eosio::ship_protocol;
    static const std::map<std::string, std::string (*)(const arg&)> m{
        {"vec_u8", nd<std::vector<uint8_t>>}, {"vec_char", nd<std::vector<char>>}, {"vec_u16", nd<std::vector<uint16_t>>}, {"vec_u64", nd<std::vector<uint64_t>>},
        {"vec_double", nd<std::vector<double>>}, {"vec_string", nd<std::vector<str>>}, {"vec_vec", nd<std::vector<std::vector<uint8_t>>>},
        {"vec_vec_string", nd<std::vector<std::vector<str>>>}, {"vec_name", nd<std::vector<eosio::name>>}, {"vec_asset", nd<std::vector<eosio::asset>>},
        {"vec_opt", nd<std::vector<std::optional<uint64_t>>>}, {"vec_variant", nd<std::vector<std::variant<uint8_t, str, std::vector<uint32_t>>>>},
        {"vec_pair", nd<std::vector<std::pair<uint8_t, str>>>}, {"vec_varuint", nd<std::vector<eosio::varuint32>>}, {"vec_bytes", nd<std::vector<eosio::bytes>>},
        {"vec_checksum", nd<std::vector<eosio::checksum256>>}, {"vec_key", nd<std::vector<eosio::public_key>>}, {"vec_sig", nd<std::vector<eosio::signature>>},
        {"list_u32", nd<std::list<uint32_t>>}, {"deque_string", nd<std::deque<str>>}, {"set_u16", nd<std::set<uint16_t>>}, {"set_string", nd<std::set<str>>},
        {"map_string_u32", nd<std::map<str, uint32_t>>}, {"map_u8_vec", nd<std::map<uint8_t, std::vector<uint16_t>>>}, {"string", nd<str>}, {"string_view", nd<std::string_view>},
        {"bytes", nd<eosio::bytes>}, {"stream", nd<eosio::input_stream>}, {"vec_stream", nd<std::vector<eosio::input_stream>>}, {"abi_def", nd<eosio::abi_def>},
        {"ship_request", nd<sh::request>}, {"ship_result", nd<sh::result>}, {"ship_block_traces", nd<std::vector<sh::transaction_trace>>}, {"ship_delta", nd<std::vector<sh::table_delta>>},
        {"ship_block", nd<sh::signed_block_variant>}, {"ship_trx", nd<sh::transaction_variant>}, {"ship_tx", nd<sh::transaction>},
    };
    return m;
}
reg r_ndec("ndec", [](const args& a) { return decoders().at(a[0].s)(a[1]); });

// ABI definitions as C++ values
reg r_adef("adef", [](const args& a) {
    auto buf = a[0].cstr();
    eosio::json_token_stream s(buf.get());
    eosio::abi_def d{};
    from_json(d, s);
    s.get_end();
    buf.reset();
    return out::ok(str(eosio::convert_to_bin(d)));
});
reg r_adefb("adefb", [](const args& a) {
    auto buf = a[0].raw();
    eosio::input_stream s(buf.get(), a[0].s.size());
    eosio::abi_def d{};
    from_bin(d, s);
    if (s.remaining()) return out::err("extra data");
    buf.reset();
    return out::ok(str(eosio::convert_to_bin(d)));
});
// load, export, and give the exported definition
reg r_aexp("aexp", [](const args& a) {
    auto buf = a[0].cstr();
    eosio::json_token_stream s(buf.get());
    eosio::abi_def d{}, e{};
    from_json(d, s);
    eosio::abi c;
    eosio::convert(d, c);
    eosio::convert(c, e);
    return out::ok(str(eosio::convert_to_bin(e)));
});

// ABI with a step callback
struct stop { uint64_t n; };
thread_local std::map<uint64_t, std::pair<std::unique_ptr<eosio::abi_def>, std::unique_ptr<eosio::abi>>> abis;
reg r_nabi("nabi", [](const args& a) {
    auto buf = a[1].cstr();
    eosio::json_token_stream s(buf.get());
    auto d = std::make_unique<eosio::abi_def>();
    from_json(*d, s);
    auto c = std::make_unique<eosio::abi>();
    eosio::convert(*d, *c);
    abis[a[0].num()] = {std::move(d), std::move(c)};
    return out::ok();
});
// ncb <slot> <dir> <type> <data> <n>: callback throws at call n (0 = never)
reg r_ncb("ncb", [](const args& a) {
    auto& c = *abis.at(a[0].num()).second;
    auto t = c.get_type(a[2].s);
    uint64_t n = a[4].num(), calls = 0;
    auto f = [&] { if (++calls == n) throw stop{n}; };
    std::string r;
    try {
        if (a[1].s == "j2b") { auto b = a[3].cstr(); r = str(t->json_to_bin({b.get(), a[3].s.size()}, f)); }
        else if (a[1].s == "j2r") { auto b = a[3].cstr(); r = str(t->json_to_bin_reorderable({b.get(), a[3].s.size()}, f)); }
        else {
            auto b = a[3].raw();
            eosio::input_stream s(b.get(), a[3].s.size());
            r = t->bin_to_json(s, f);
            if (s.remaining()) return out::err("extra data");
        }
    } catch (const stop& s) {
        return out::ok("stopped", std::to_string(calls), "");
    } catch (const std::exception& e) {
        return out::err((std::to_string(calls) + ":" + e.what()).c_str());
    }
    return out::ok("done", std::to_string(calls), r);
});

// names
reg r_name("name", [](const args& a) { // text -> lenient, strict?, hash
    auto b = a[0].raw();
    std::string_view sv(b.get(), a[0].s.size());
    std::string strict;
    try { strict = std::to_string(eosio::string_to_name_strict(sv)); } catch (const std::exception&) { strict = "error"; }
    std::string strict2;
    try { strict2 = std::to_string(eosio::name(sv).value); } catch (const std::exception&) { strict2 = "error"; }
    if (strict != strict2) return out::err("HARNESS: strict parsers differ");
    return out::ok(std::to_string(eosio::string_to_name(sv)), strict, std::to_string(eosio::hash_name(sv)));
});
reg r_nameval("nameval", [](const args& a) { // value -> text, length prefix suffix
    eosio::name n(a[0].num());
    return out::ok(n.to_string(), std::to_string(n.length()),
                   std::to_string(n.prefix().value) + " " + std::to_string(n.suffix().value));
});
reg r_namechar("namechar", [](const args& a) {
    return out::ok(std::to_string(eosio::name::char_to_value(a[0].s[0])), std::to_string(eosio::char_to_name_digit(a[0].s[0])));
});
// symbol objects
reg r_symobj("symobj", [](const args& a) { // raw -> validity, precision, code, length
    eosio::symbol s(a[0].num());
    return out::ok(s.to_string(), s.code().to_string(), std::to_string(s.is_valid()) + " " + std::to_string(s.code().is_valid()) + " " + std::to_string(s.precision()) + " " +
                   std::to_string(s.code().raw()) + " " + std::to_string(s.code().length()) + " " + std::to_string(s.raw()));
});
reg r_symmake("symmake", [](const args& a) { // code text, precision -> raw values
    auto b = a[0].raw();
    std::string_view sv(b.get(), a[0].s.size());
    eosio::symbol_code c(sv);
    return out::ok(std::to_string(c.raw()), std::to_string(eosio::symbol(sv, uint8_t(a[1].num())).raw()), std::to_string(eosio::symbol(c, uint8_t(a[1].num())).raw()));
});
reg r_murmur("murmur", [](const args& a) {
    auto b = a[0].raw();
    uint64_t h = a.size() > 1 ? eosio::murmur64(b.get(), a[0].s.size(), a[1].num()) : eosio::murmur64(b.get(), a[0].s.size());
    return out::ok(std::to_string(h));
});
// ripe chunk...
reg r_ripe("ripe", [](const args& a) {
    abieos_ripemd160::ripemd160_state st;
    abieos_ripemd160::ripemd160_init(&st);
    for (auto& x : a) {
        auto b = x.raw();
        abieos_ripemd160::ripemd160_update(&st, b.get(), int(x.s.size()));
    }
    std::array<unsigned char, 20> d{}, d2{};
    if (!abieos_ripemd160::ripemd160_digest(&st, d.data())) return out::err("digest failed");
    // digest does not consume the state
    if (!abieos_ripemd160::ripemd160_digest(&st, d2.data()) || d != d2) return out::err("HARNESS: second digest differs");
    return out::ok(std::string((const char*)d.data(), 20));
});
// a message of the given length, one byte repeated, in pieces of the given size
reg r_ripelong("ripelong", [](const args& a) {
    abieos_ripemd160::ripemd160_state st;
    abieos_ripemd160::ripemd160_init(&st);
    uint64_t left = a[1].num(), piece = a[2].num();
    std::vector<char> block(piece, a[0].s.at(0));
    while (left) {
        uint64_t n = std::min(left, piece);
        abieos_ripemd160::ripemd160_update(&st, block.data(), int(n));
        left -= n;
    }
    std::array<unsigned char, 20> d{};
    if (!abieos_ripemd160::ripemd160_digest(&st, d.data())) return out::err("digest failed");
    return out::ok(std::string((const char*)d.data(), 20));
});
reg r_b58e("b58e", [](const args& a) { auto b = a[0].raw(); return out::ok(eosio::to_base58(b.get(), a[0].s.size())); });
reg r_b58d("b58d", [](const args& a) {
    auto b = a[0].raw();
    return out::ok(str(eosio::from_base58(std::string_view(b.get(), a[0].s.size()))));
});
reg r_hexe("hexe", [](const args& a) { return out::ok(abieos::hex(a[0].s.begin(), a[0].s.end())); });
// text helpers: value -> text and text -> value
reg r_symtext("symtext", [](const args& a) { // raw symbol, raw code
    return out::ok(eosio::symbol_to_string(a[0].num()), eosio::symbol_code_to_string(a[0].num() >> 8));
});
reg r_assettext("assettext", [](const args& a) {
    return out::ok(eosio::asset_to_string(int64_t(a[0].num()), a[1].num()));
});
reg r_symparse("symparse", [](const args& a) {
    auto b = a[0].raw();
    uint64_t v = 0;
    if (!eosio::string_to_symbol(v, b.get(), b.get() + a[0].s.size())) return out::err("rejected");
    return out::ok(std::to_string(v));
});
reg r_codeparse("codeparse", [](const args& a) {
    auto b = a[0].raw();
    uint64_t v = 0;
    if (!eosio::string_to_symbol_code(v, b.get(), b.get() + a[0].s.size())) return out::err("rejected");
    return out::ok(std::to_string(v));
});
reg r_assetparse("assetparse", [](const args& a) {
    auto b = a[0].raw();
    int64_t v = 0; uint64_t s = 0;
    if (!eosio::string_to_asset(v, s, b.get(), b.get() + a[0].s.size())) return out::err("rejected");
    return out::ok(std::to_string(v), std::to_string(s));
});
reg r_assetfrom("assetfrom", [](const args& a) { // the text of an asset as a stream, whole
    auto b = a[0].raw();
    auto x = eosio::convert_from_string<eosio::asset>(std::string_view(b.get(), a[0].s.size()));
    return out::ok(std::to_string(x.amount), std::to_string(x.symbol.value));
});
reg r_textprefix("textprefix", [](const args& a) { // kind, text: the value at the start of the text, and where it ends
    auto b = a[1].raw();
    const char *p = b.get(), *e = p + a[1].s.size();
    int64_t v = 0; uint64_t s = 0;
    bool ok = a[0].s == "asset" ? eosio::string_to_asset(v, s, p, e, false) : a[0].s == "symbol" ? eosio::string_to_symbol(s, p, e, false) : eosio::string_to_symbol_code(s, p, e, false);
    if (p < b.get() || p > e) return out::ok("out of bounds");
    if (!ok) return out::err("rejected");
    return out::ok(std::to_string(v), std::to_string(s), std::to_string(p - b.get()));
});
reg r_timetext("timetext", [](const args& a) { return out::ok(eosio::microseconds_to_str(a[0].num())); });
reg r_timeparse("timeparse", [](const args& a) { // seconds and microseconds parsers on the same text
    auto b = a[0].raw();
    const char *p = b.get(), *e = p + a[0].s.size();
    uint32_t s = 0; uint64_t us = 0;
    std::string rs = eosio::string_to_utc_seconds(s, p, e) ? std::to_string(s) : "rejected";
    std::string ru = eosio::string_to_utc_microseconds(us, p, e) ? std::to_string(us) : "rejected";
    return out::ok(rs, ru);
});
reg r_timeconv("timeconv", [](const args& a) { // kind value -> conversions between the three representations
    uint64_t v = a[1].num();
    if (a[0].s == "slot") {
        eosio::block_timestamp t{uint32_t(v)};
        auto tp = t.to_time_point();
        return out::ok(std::to_string(tp.elapsed.count()), std::to_string(eosio::block_timestamp(tp).slot), std::to_string(tp.sec_since_epoch()));
    }
    if (a[0].s == "sec") {
        eosio::time_point_sec t{uint32_t(v)};
        eosio::time_point tp = t;
        return out::ok(std::to_string(tp.elapsed.count()), std::to_string(eosio::time_point_sec(tp).utc_seconds), std::to_string(t.sec_since_epoch()));
    }
    eosio::time_point tp{eosio::microseconds(int64_t(v))};
    return out::ok(std::to_string(eosio::block_timestamp(tp).slot), std::to_string(eosio::time_point_sec(tp).utc_seconds), std::to_string(tp.sec_since_epoch()));
});
reg r_keystr("keystr", [](const args& a) { // kind bin -> text
    auto b = a[1].raw();
    eosio::input_stream s(b.get(), a[1].s.size());
    if (a[0].s == "public_key") { eosio::public_key k; from_bin(k, s); return out::ok(eosio::public_key_to_string(k)); }
    if (a[0].s == "private_key") { eosio::private_key k; from_bin(k, s); return out::ok(eosio::private_key_to_string(k)); }
    eosio::signature k; from_bin(k, s); return out::ok(eosio::signature_to_string(k));
});
reg r_keyparse("keyparse", [](const args& a) { // kind text -> bin
    auto b = a[1].raw();
    std::string_view sv(b.get(), a[1].s.size());
    if (a[0].s == "public_key") return out::ok(str(eosio::convert_to_bin(eosio::public_key_from_string(sv))));
    if (a[0].s == "private_key") return out::ok(str(eosio::convert_to_bin(eosio::private_key_from_string(sv))));
    return out::ok(str(eosio::convert_to_bin(eosio::signature_from_string(sv))));
});
// any byte string as a JSON string, compact
reg r_jstr("jstr", [](const args& a) {
    auto b = a[0].raw();
    std::string_view sv(b.get(), a[0].s.size());
    return out::ok(eosio::convert_to_json(sv), eosio::format_json(sv));
});
// array of strings -> compact and indented
reg r_jvec("jvec", [](const args& a) {
    std::vector<std::string> v;
    for (auto& x : a) v.push_back(x.s);
    return out::ok(eosio::convert_to_json(v), eosio::format_json(v), str(eosio::convert_to_bin(v)));
});
} // namespace
