// State-history protocol: decode, re-encode and print; opaque payloads.
#include "vh.hpp"
#include <abieos.hpp>
#include <eosio/chain_types.hpp>
#include <eosio/opaque.hpp>
#include <eosio/ship_protocol.hpp>

using namespace vh;
namespace {
namespace sh = eosio::ship_protocol;

template <typename T, bool Json>
std::string one(const arg& bin) {
    auto buf = bin.raw();
    eosio::input_stream s(buf.get(), bin.s.size());
    T v{};
    from_bin(v, s);
    if (s.remaining()) return out::err("extra data");
    auto again = str(eosio::convert_to_bin(v));
    T copy = v; // values are copied and moved like any other
    T moved = std::move(copy);
    if (str(eosio::convert_to_bin(moved)) != again) return out::err("HARNESS: a copy encodes differently");
    std::string json, failed;
    if constexpr (Json) {
        try { json = eosio::convert_to_json(v); } catch (const std::exception& e) { failed = e.what(); }
        if (failed.empty() && json != eosio::convert_to_json(moved)) return out::err("HARNESS: a copy prints differently");
    }
    return out::ok(again, json, failed);
}

using decoder = std::string (*)(const arg&);
const std::map<std::string, decoder>& types() {
    static const std::map<std::string, decoder> m{
        {"extension", one<sh::extension, true>},
        {"get_status_request_v0", one<sh::get_status_request_v0, true>},
        {"block_position", one<sh::block_position, true>},
        {"get_status_result_v0", one<sh::get_status_result_v0, true>},
        {"get_blocks_request_v0", one<sh::get_blocks_request_v0, true>},
        {"get_blocks_ack_request_v0", one<sh::get_blocks_ack_request_v0, true>},
        {"get_blocks_result_base", one<sh::get_blocks_result_base, true>},
        {"get_blocks_result_v0", one<sh::get_blocks_result_v0, true>},
        {"get_blocks_result_v1", one<sh::get_blocks_result_v1, false>},
        {"row", one<sh::row, true>},
        {"table_delta_v0", one<sh::table_delta_v0, true>},
        {"permission_level", one<sh::permission_level, true>},
        {"action", one<sh::action, true>},
        {"account_auth_sequence", one<sh::account_auth_sequence, true>},
        {"action_receipt_v0", one<sh::action_receipt_v0, true>},
        {"account_delta", one<sh::account_delta, true>},
        {"action_trace_v0", one<sh::action_trace_v0, true>},
        {"action_trace_v1", one<sh::action_trace_v1, true>},
        {"prunable_data_type::none", one<sh::prunable_data_type::none, true>},
        {"prunable_data_type::partial", one<sh::prunable_data_type::partial, true>},
        {"prunable_data_type::full", one<sh::prunable_data_type::full, true>},
        {"prunable_data_type::full_legacy", one<sh::prunable_data_type::full_legacy, true>},
        {"prunable_data_type", one<sh::prunable_data_type, true>},
        {"partial_transaction_v0", one<sh::partial_transaction_v0, true>},
        {"partial_transaction_v1", one<sh::partial_transaction_v1, true>},
        {"transaction_trace_v0", one<sh::transaction_trace_v0, true>},
        {"producer_key", one<sh::producer_key, true>},
        {"producer_schedule", one<sh::producer_schedule, true>},
        {"transaction_receipt_header", one<sh::transaction_receipt_header, true>},
        {"packed_transaction_v0", one<sh::packed_transaction_v0, true>},
        {"packed_transaction", one<sh::packed_transaction, true>},
        {"transaction_receipt_v0", one<sh::transaction_receipt_v0, true>},
        {"transaction_receipt", one<sh::transaction_receipt, true>},
        {"block_header", one<sh::block_header, true>},
        {"signed_block_header", one<sh::signed_block_header, true>},
        {"signed_block_v0", one<sh::signed_block_v0, true>},
        {"signed_block_v1", one<sh::signed_block_v1, true>},
        {"transaction_header", one<sh::transaction_header, true>},
        {"transaction", one<sh::transaction, true>},
        {"code_id", one<sh::code_id, true>},
        {"account_v0", one<sh::account_v0, true>},
        {"account_metadata_v0", one<sh::account_metadata_v0, true>},
        {"code_v0", one<sh::code_v0, true>},
        {"contract_table_v0", one<sh::contract_table_v0, true>},
        {"contract_row_v0", one<sh::contract_row_v0, true>},
        {"contract_index64_v0", one<sh::contract_index64_v0, true>},
        {"contract_index128_v0", one<sh::contract_index128_v0, true>},
        {"contract_index256_v0", one<sh::contract_index256_v0, true>},
        {"contract_index_double_v0", one<sh::contract_index_double_v0, true>},
        {"contract_index_long_double_v0", one<sh::contract_index_long_double_v0, true>},
        {"key_value_v0", one<sh::key_value_v0, true>},
        {"key_weight", one<sh::key_weight, true>},
        {"block_signing_authority_v0", one<sh::block_signing_authority_v0, true>},
        {"producer_authority", one<sh::producer_authority, true>},
        {"producer_authority_schedule", one<sh::producer_authority_schedule, true>},
        {"chain_config_v0", one<sh::chain_config_v0, true>},
        {"global_property_v0", one<sh::global_property_v0, true>},
        {"global_property_v1", one<sh::global_property_v1, true>},
        {"generated_transaction_v0", one<sh::generated_transaction_v0, true>},
        {"activated_protocol_feature_v0", one<sh::activated_protocol_feature_v0, true>},
        {"protocol_state_v0", one<sh::protocol_state_v0, true>},
        {"permission_level_weight", one<sh::permission_level_weight, true>},
        {"wait_weight", one<sh::wait_weight, true>},
        {"authority", one<sh::authority, true>},
        {"permission_v0", one<sh::permission_v0, true>},
        {"permission_link_v0", one<sh::permission_link_v0, true>},
        {"resource_limits_v0", one<sh::resource_limits_v0, true>},
        {"usage_accumulator_v0", one<sh::usage_accumulator_v0, true>},
        {"resource_usage_v0", one<sh::resource_usage_v0, true>},
        {"resource_limits_state_v0", one<sh::resource_limits_state_v0, true>},
        {"resource_limits_ratio_v0", one<sh::resource_limits_ratio_v0, true>},
        {"elastic_limit_parameters_v0", one<sh::elastic_limit_parameters_v0, true>},
        {"resource_limits_config_v0", one<sh::resource_limits_config_v0, true>},
        {"block_info", one<chain_types::block_info, true>},
        {"request", one<sh::request, true>},
        {"result", one<sh::result, false>},
        {"table_delta", one<sh::table_delta, true>},
        {"action_receipt", one<sh::action_receipt, true>},
        {"action_trace", one<sh::action_trace, true>},
        {"segment_type", one<sh::prunable_data_type::segment_type, true>},
        {"prunable_data_t", one<sh::prunable_data_type::prunable_data_t, true>},
        {"partial_transaction", one<sh::partial_transaction, true>},
        {"transaction_trace", one<sh::transaction_trace, true>},
        {"transaction_variant_v0", one<sh::transaction_variant_v0, true>},
        {"transaction_variant", one<sh::transaction_variant, true>},
        {"signed_block_variant", one<sh::signed_block_variant, true>},
        {"account", one<sh::account, true>},
        {"account_metadata", one<sh::account_metadata, true>},
        {"code", one<sh::code, true>},
        {"contract_table", one<sh::contract_table, true>},
        {"contract_row", one<sh::contract_row, true>},
        {"contract_index64", one<sh::contract_index64, true>},
        {"contract_index128", one<sh::contract_index128, true>},
        {"contract_index256", one<sh::contract_index256, true>},
        {"contract_index_double", one<sh::contract_index_double, true>},
        {"contract_index_long_double", one<sh::contract_index_long_double, true>},
        {"key_value", one<sh::key_value, true>},
        {"block_signing_authority", one<sh::block_signing_authority, true>},
        {"chain_config", one<sh::chain_config, true>},
        {"global_property", one<sh::global_property, true>},
        {"generated_transaction", one<sh::generated_transaction, true>},
        {"activated_protocol_feature", one<sh::activated_protocol_feature, true>},
        {"protocol_state", one<sh::protocol_state, true>},
        {"permission", one<sh::permission, true>},
        {"permission_link", one<sh::permission_link, true>},
        {"resource_limits", one<sh::resource_limits, true>},
        {"usage_accumulator", one<sh::usage_accumulator, true>},
        {"resource_usage", one<sh::resource_usage, true>},
        {"resource_limits_state", one<sh::resource_limits_state, true>},
        {"resource_limits_ratio", one<sh::resource_limits_ratio, true>},
        {"elastic_limit_parameters", one<sh::elastic_limit_parameters, true>},
        {"resource_limits_config", one<sh::resource_limits_config, true>},
    };
    return m;
}
reg r_shp("shp", [](const args& a) { return types().at(a[0].s)(a[1]); });

template <typename T, typename = void> struct requires_resize : std::false_type {};
template <typename T> struct requires_resize<T, std::void_t<decltype(std::declval<T&>().resize(1))>> : std::true_type {};

// opaque<T>: prefixed bytes followed by more bytes -> re-encoded, payload's value re-encoded, by element, number of bytes taken
template <typename T>
std::string whole(eosio::opaque<T> o) {
    T v = o.unpack();
    if (!o.empty()) return "left";
    auto first = str(eosio::convert_to_bin(v));
    return "=" + first;
}
template <typename T>
std::string opq(const arg& bin) {
    auto buf = bin.raw();
    eosio::input_stream s(buf.get(), bin.s.size());
    eosio::opaque<T> o;
    from_bin(o, s);
    std::string rest(s.pos, s.end), again = str(eosio::convert_to_bin(o)), payload;
    {
        eosio::input_stream p(again.data(), again.size()), q;
        eosio::from_bin(q, p);
        payload.assign(q.pos, q.end);
    }
    if (o.empty() != payload.empty()) return out::err("HARNESS: empty() is wrong");
    std::vector<char> pv(payload.begin(), payload.end());
    eosio::opaque<T> from_vector(pv), from_stream(eosio::input_stream(buf.get(), bin.s.size()));
    if (str(eosio::convert_to_bin(from_vector)) != again) return out::err("HARNESS: made from a vector it encodes differently");
    if (str(eosio::convert_to_bin(from_stream)) != again) return out::err("HARNESS: made from a stream it encodes differently");
    std::string v;
    try { v = whole(o); } catch (const std::exception& e) { v = std::string("!") + e.what(); }
    // by reference into an object that already holds something
    std::string v2;
    try { auto c = o; T obj{}; if constexpr (requires_resize<T>::value) obj.resize(3); c.unpack(obj); v2 = c.empty() ? "=" + str(eosio::convert_to_bin(obj)) : "left"; } catch (const std::exception& e) { v2 = std::string("!") + e.what(); }
    if (v != v2) return out::err("HARNESS: unpack() and unpack(obj) differ");
    // element by element
    if constexpr (requires_resize<T>::value && !std::is_same_v<T, std::string>) {
        std::string e;
        try {
            auto c = o, d = o;
            size_t n = c.unpack_size();
            std::string enc;
            for (size_t i = 0; i < n; ++i) {
                typename T::value_type x = c.unpack_next();
                enc += str(eosio::convert_to_bin(x));
            }
            if (!c.empty()) e = "left";
            else {
                d.unpack_size();
                std::string enc2;
                typename T::value_type x{};
                for (size_t i = 0; i < n; ++i) { d.unpack_next(x); enc2 += str(eosio::convert_to_bin(x)); }
                if (enc != enc2) return out::err("HARNESS: unpack_next() and unpack_next(obj) differ");
                std::vector<char> head;
                eosio::vector_stream hs(head);
                eosio::varuint32_to_bin(n, hs);
                e = "=" + str(head) + enc;
                // one element too many must be reported
                bool reported = false;
                try { typename T::value_type y = c.unpack_next(); } catch (const std::exception&) { reported = true; }
                if (!reported && n) return out::err("HARNESS: an element after the last was yielded");
            }
        } catch (const std::exception& x) { e = std::string("!") + x.what(); }
        if ((e[0] == '=') != (v[0] == '=') || (e[0] == '=' && e != v)) return out::err("HARNESS: element-wise unpacking differs from unpacking at once");
    }
    return out::ok(again, rest, v);
}
const std::map<std::string, decoder>& opaques() {
    static const std::map<std::string, decoder> m{
        {"transaction_trace[]", opq<std::vector<sh::transaction_trace>>}, {"table_delta[]", opq<std::vector<sh::table_delta>>}, {"uint64", opq<uint64_t>}, {"string", opq<std::string>},
        {"string[]", opq<std::vector<std::string>>}, {"uint16[]", opq<std::vector<uint16_t>>}, {"action", opq<sh::action>}, {"row[]", opq<std::vector<sh::row>>},
        {"action_trace", opq<sh::action_trace>}, {"bytes", opq<eosio::bytes>}, {"signed_block_variant", opq<sh::signed_block_variant>}, {"varuint32", opq<eosio::varuint32>},
    };
    return m;
}
reg r_shst("shst", [](const args& a) { // status text -> value -> text
    auto st = sh::get_transaction_status(a[0].s);
    return out::ok(std::to_string(int(st)), sh::to_string(st));
});
reg r_opq("opq", [](const args& a) { return opaques().at(a[0].s)(a[1]); });
} // namespace
