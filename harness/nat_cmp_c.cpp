#include "nat_cmp.hpp"
using namespace eosio;
template <typename X> void cross(const char* name) {
    X a, b;
    scalar(a) = gen_int<std::decay_t<decltype(scalar(a))>>();
    scalar(b) = rng.one_in(3) ? scalar(a) : vary(scalar(a), opts{});
    auto y = scalar(b);
    int c = scalar(a) < y ? -1 : scalar(a) > y;
    auto show = [&] { return std::to_string(scalar(a)) + " and " + std::to_string(y); };
    ops<false>((std::string(name) + " with integer").c_str(), a, y, c, show);
    ops<false>((std::string("integer with ") + name).c_str(), y, a, -c, [&] { return std::to_string(y) + " and " + std::to_string(scalar(a)); });
    ops<false>(name, a, b, c, show);
}
void extended() {
    opts o;
    auto make = [&](const symbol& s, name n) { return extended_symbol(s, n); };
    symbol s = gen<symbol>(o), t = rng.below(2) ? s : vary(s, o);
    name n{gen_int<u64>()}, m = rng.below(2) ? n : name{vary<u64>(n.value, o)};
    auto a = make(s, n), b = make(t, m);
    int c = s.value < t.value ? -1 : s.value > t.value ? 1 : n.value < m.value ? -1 : n.value > m.value;
    ops<false>("extended_symbol", a, b, c, [&] { return std::to_string(s.value) + "@" + std::to_string(n.value) + " and " + std::to_string(t.value) + "@" + std::to_string(m.value); });
}
void keys() {
    opts o;
    webauthn_public_key a, b;
    for (auto& x : a.key) x = rng.one_in(2) ? 0 : rng.next();
    a.user_presence = webauthn_public_key::user_presence_t(rng.below(3));
    a.rpid = gen_text(false);
    b = a;
    switch (rng.below(6)) {
    case 0: b.key[rng.below(b.key.size())] ^= char(1 << rng.below(8)); break;
    case 1: b.user_presence = webauthn_public_key::user_presence_t(rng.below(3)); break;
    case 2: b.rpid = vary(b.rpid, o); break;
    case 3: b.rpid = vary(b.rpid, o); b.key[rng.below(b.key.size())] ^= char(1 << rng.below(8)); break;
    case 4: b.rpid = vary(b.rpid, o); b.user_presence = webauthn_public_key::user_presence_t(rng.below(3)); break;
    }
    auto three = [](auto x, auto y) { return x < y ? -1 : y < x ? 1 : 0; };
    int c = 0;
    for (size_t i = 0; !c && i < a.key.size(); ++i) c = three(a.key[i], b.key[i]);
    if (!c) c = three(int(a.user_presence), int(b.user_presence));
    if (!c) c = cmp<std::string>(a.rpid, b.rpid);
    auto show = [&] { return hex(str(convert_to_bin(a))) + " and " + hex(str(convert_to_bin(b))); };
    ops<false>("webauthn_public_key", a, b, c, show);
    public_key ka, kb;
    ka.emplace<2>(a); kb.emplace<2>(b);
    if (rng.one_in(3)) ka.emplace<0>(a.key);
    if (rng.one_in(3)) kb.emplace<1>(b.key);
    int d = three(ka.index(), kb.index());
    if (!d && ka.index() == 2) d = c;
    if (!d || ka.index() != kb.index() || ka.index() == 2) ops<false>("public_key", ka, kb, d, show);
    webauthn_signature s, t;
    for (auto& x : s.compact_signature) x = rng.one_in(2) ? 0 : rng.next();
    { auto x = gen_text(false); s.auth_data.assign(x.begin(), x.end()); s.client_json = gen_text(false); }
    t = s;
    switch (rng.below(5)) {
    case 0: t.compact_signature[rng.below(t.compact_signature.size())] ^= 1; break;
    case 1: t.client_json = vary(t.client_json, o); break;
    case 2: t.auth_data.push_back(1); break;
    case 3: t.auth_data.push_back(1); t.client_json = vary(t.client_json, o); break;
    }
    c = 0;
    for (size_t i = 0; !c && i < s.compact_signature.size(); ++i) c = three(s.compact_signature[i], t.compact_signature[i]);
    if (!c) c = s.auth_data < t.auth_data ? -1 : t.auth_data < s.auth_data;
    if (!c) c = cmp<std::string>(s.client_json, t.client_json);
    ops<false>("webauthn_signature", s, t, c, [&] { return hex(str(convert_to_bin(s))) + " and " + hex(str(convert_to_bin(t))); });
}
void part_c() {
    T(name); T(symbol); T(symbol_code); T(checksum160); T(checksum256); T(checksum512); T(time_point); T(time_point_sec); T(block_timestamp); T(bytes);
    total<varuint32, false>("varuint32"); total<varint32, false>("varint32");
    cross<varuint32>("varuint32"); cross<varint32>("varint32");
    extended(); keys();
    int64_t x = gen_int<int64_t>(), y = rng.one_in(3) ? x : vary(x, opts{});
    ops<true>("microseconds", microseconds(x), microseconds(y), x < y ? -1 : x > y, [&] { return std::to_string(x) + " and " + std::to_string(y); });
}
