// libFuzzer target over the C interface. Input: records of op(1) type(1) length(2) payload.
#include "eosio/abieos.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>

static const char preset[] = R"({"version":"eosio::abi/1.1",
"types":[{"new_type_name":"al","type":"rec"},{"new_type_name":"arr","type":"uint16[]"},{"new_type_name":"opt","type":"string?"}],
"structs":[{"name":"base","base":"","fields":[{"name":"a","type":"uint8"},{"name":"b","type":"string"}]},
{"name":"der","base":"base","fields":[{"name":"c","type":"name[]"},{"name":"d","type":"asset?"}]},
{"name":"ext","base":"","fields":[{"name":"a","type":"uint8"},{"name":"x","type":"der$"},{"name":"y","type":"varuint32[]$"},{"name":"z","type":"var?$"}]},
{"name":"rec","base":"","fields":[{"name":"v","type":"int8"},{"name":"n","type":"al[]"},{"name":"o","type":"rec?"}]},
{"name":"all","base":"","fields":[{"name":"t","type":"time_point"},{"name":"f","type":"float64"},{"name":"k","type":"public_key"},{"name":"y","type":"bytes"},{"name":"l","type":"bool"}]}],
"variants":[{"name":"var","types":["uint32","string","rec","var[]","opt","base"]}],
"actions":[{"name":"a","type":"base","ricardian_contract":""}],"tables":[{"name":"a","type":"base","index_type":"i64","key_names":[],"key_types":[]}]})";
static const char* const types[] = {"base", "der", "ext", "rec", "all", "var", "al", "arr", "opt", "der[]", "ext[]", "var[]", "rec?", "var?",
    "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128", "varuint32", "varint32", "float32", "float64",
    "float128", "time_point", "time_point_sec", "block_timestamp_type", "name", "bytes", "string", "checksum160", "checksum256", "checksum512",
    "public_key", "private_key", "signature", "symbol", "symbol_code", "asset", "extended_asset", "string[]", "bytes?", "float64[]", "signature[]", "nope", "der$", "arr[]"};
constexpr int ntypes = sizeof(types) / sizeof(*types);

static abieos_context* fixed() {
    static abieos_context* c = [] {
        auto c = abieos_create();
        if (!abieos_set_abi(c, 1, preset)) { fprintf(stderr, "ERROR: preset ABI refused: %s\n", abieos_get_error(c)); abort(); }
        return c;
    }();
    return c;
}
static void fail(const char* what) { fprintf(stderr, "MONITOR: %s\n", what); abort(); }
static void outcome(abieos_context* c, bool ok) { if (!ok && !*abieos_get_error(c)) fail("failure without a message"); }

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    std::unique_ptr<abieos_context, void (*)(abieos_context*)> mine(nullptr, abieos_destroy);
    int records = 0;
    while (n >= 4 && records++ < 12) {
        unsigned op = d[0] % 12, ty = d[1] % ntypes;
        size_t len = d[2] | d[3] << 8;
        d += 4; n -= 4;
        if (len > n) len = n;
        std::unique_ptr<char[]> raw(new char[len]), str(new char[len + 1]);
        memcpy(raw.get(), d, len); memcpy(str.get(), d, len); str[len] = 0;
        d += len; n -= len;
        if (op >= 4 && op != 7 && op != 8 && !mine) mine.reset(abieos_create());
        auto c = fixed();
        auto m = mine.get();
        switch (op) {
        case 0: case 1: {
            bool ok = op ? abieos_json_to_bin_reorderable(c, 1, types[ty], str.get()) : abieos_json_to_bin(c, 1, types[ty], str.get());
            outcome(c, ok);
            if (ok) {
                if (strlen(abieos_get_bin_hex(c)) != 2u * abieos_get_bin_size(c)) fail("hex of the result has another length");
                std::string b(abieos_get_bin_data(c), abieos_get_bin_size(c));
                if (!abieos_bin_to_json(c, 1, types[ty], b.data(), b.size())) fail("the encoding of accepted JSON does not decode");
            }
            break;
        }
        case 2: outcome(c, abieos_bin_to_json(c, 1, types[ty], raw.get(), len)); break;
        case 3: outcome(c, abieos_hex_to_json(c, 1, types[ty], str.get())); break;
        case 4: outcome(m, abieos_set_abi(m, 2, str.get())); break;
        case 5: outcome(m, abieos_set_abi_bin(m, 2, raw.get(), len)); break;
        case 6: outcome(m, abieos_set_abi_hex(m, 2, str.get())); break;
        case 7: abieos_string_to_name(c, str.get()); break;
        case 8: { uint64_t v = 0; memcpy(&v, raw.get(), len < 8 ? len : 8); outcome(c, abieos_name_to_string(c, v)); break; }
        case 9: outcome(m, abieos_get_type_for_action(m, 2, ty)); outcome(m, abieos_get_type_for_table(m, 2, ty)); break;
        default: {
            size_t l = strlen(str.get());
            const char* j = l < len ? str.get() + l + 1 : "{}";
            outcome(m, op == 10 ? abieos_json_to_bin(m, 2, str.get(), j) : abieos_json_to_bin_reorderable(m, 2, str.get(), j));
        }
        }
    }
    return 0;
}
