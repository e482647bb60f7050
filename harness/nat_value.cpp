// Arithmetic, comparison and conversion of time values and counters against 128-bit integer arithmetic.
#define NAT_MAIN
#include "nat_types.hpp"
#include <eosio/time.hpp>
#include <eosio/varint.hpp>
#include <eosio/symbol.hpp>
using namespace nat;
using eosio::microseconds; using eosio::time_point; using eosio::time_point_sec; using eosio::block_timestamp;
using eosio::unsigned_int; using eosio::signed_int; using eosio::symbol; using eosio::symbol_code; using eosio::extended_symbol; using eosio::name;

std::string show(i128 v) { bool n = v < 0; u128 u = n ? -u128(v) : u128(v); std::string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u); return n ? "-" + s : s; }
template <typename T> bool fits(i128 v) { return v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max()); }
constexpr i128 SEC = 1000000, Y2000 = i128(946684800) * SEC, SLOT = 500000;

int64_t any64() {
    constexpr int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
    int64_t v;
    switch (rng.below(9)) {
    case 0: return int64_t(rng.below(7)) - 3;
    case 1: return rng.one_in(2) ? lo + int64_t(rng.below(3)) : hi - int64_t(rng.below(3));
    case 2: v = int64_t(SEC) * int64_t(rng.below(5000000000ull)) + int64_t(rng.below(3)) - 1; break;
    case 3: v = int64_t(Y2000) + int64_t(SLOT) * int64_t(rng.below(5000000000ull)) + int64_t(rng.below(3)) - 1; break;
    case 4: v = int64_t(rng.below(4300000000ull * 1000000ull)); break;
    case 5: v = int64_t(Y2000) + int64_t(SLOT) * int64_t(0xffffffffull - rng.below(3)) + int64_t(rng.below(1000000)); break;
    case 6: v = int64_t(SEC) * int64_t(0xffffffffull - rng.below(3)) + int64_t(rng.below(2000000)); break;
    default: v = int64_t(rng.next() >> rng.below(64));
    }
    return rng.one_in(4) ? -v : v;
}
// partner whose sum or difference with a is often near a limit
int64_t partner64(int64_t a) {
    constexpr int64_t lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
    i128 v;
    switch (rng.below(6)) {
    case 0: v = i128(hi) - a - int64_t(rng.below(2)); break;
    case 1: v = i128(lo) - a + int64_t(rng.below(2)); break;
    case 2: v = i128(a) - hi + int64_t(rng.below(2)); break;
    case 3: v = i128(a) - lo - int64_t(rng.below(2)); break;
    case 4: v = i128(a) + int64_t(rng.below(3)) - 1; break;
    default: return any64();
    }
    return fits<int64_t>(v) ? int64_t(v) : any64();
}
uint32_t any32() {
    switch (rng.below(5)) {
    case 0: return uint32_t(rng.below(4));
    case 1: return 0xffffffffu - uint32_t(rng.below(4));
    case 2: return 0x80000000u + uint32_t(rng.below(4)) - 2;
    case 3: return uint32_t(rng.next() >> (32 + rng.below(32)));
    default: return uint32_t(rng.next());
    }
}

// got is the observed number of the result of "what"
void is(const char* op, i128 got, i128 want, i128 a, i128 b) {
    seen(op, u64(a) * 1000003 ^ u64(b));
    if (got != want) violate(op, std::string(op) + " of " + show(a) + " and " + show(b) + " gives " + show(got) + ", should be " + show(want));
}
template <typename F>
void gives(const char* op, i128 want, i128 a, i128 b, F f) {
    i128 got = 0;
    auto e = reports([&] { got = i128(f()); });
    if (e) { seen(op, u64(a) * 1000003 ^ u64(b)); violate(op, std::string(op) + " of " + show(a) + " and " + show(b) + " is refused: " + *e); }
    else is(op, got, want, a, b);
}
template <typename T, typename U>
void six(const char* op, const T& x, const U& y, i128 a, i128 b) {
    gives(op, a == b, a, b, [&] { return bool(x == y); }); gives(op, a != b, a, b, [&] { return bool(x != y); });
    gives(op, a < b, a, b, [&] { return bool(x < y); }); gives(op, a <= b, a, b, [&] { return bool(x <= y); });
    gives(op, a > b, a, b, [&] { return bool(x > y); }); gives(op, a >= b, a, b, [&] { return bool(x >= y); });
}
template <typename T, typename U>
void four(const char* op, const T& x, const U& y, i128 a, i128 b) {
    gives(op, a == b, a, b, [&] { return bool(x == y); }); gives(op, a != b, a, b, [&] { return bool(x != y); });
    gives(op, a < b, a, b, [&] { return bool(x < y); }); gives(op, a >= b, a, b, [&] { return bool(x >= y); });
}

void durations() {
    int64_t a = any64(), b = partner64(a);
    const microseconds x(a), y(b);
    i128 sum = i128(a) + b, dif = i128(a) - b;
    if (fits<int64_t>(sum)) {
        gives("duration +", sum, a, b, [&] { return (x + y).count(); });
        gives("duration +=", sum, a, b, [&] { microseconds z = x; auto& r = (z += y); return &r == &z ? z.count() : ~z.count(); });
        gives("time + duration", sum, a, b, [&] { return (time_point(x) + y).time_since_epoch().count(); });
        gives("time + time", sum, a, b, [&] { return (time_point(x) + time_point(y)).elapsed.count(); });
        gives("time += duration", sum, a, b, [&] { time_point z(x); auto& r = (z += y); return &r == &z ? z.elapsed._count : ~z.elapsed._count; });
    }
    if (fits<int64_t>(dif)) {
        gives("duration -", dif, a, b, [&] { return (x - y).count(); });
        gives("duration -=", dif, a, b, [&] { microseconds z = x; auto& r = (z -= y); return &r == &z ? z.count() : ~z.count(); });
        gives("time - duration", dif, a, b, [&] { return (time_point(x) - y).time_since_epoch().count(); });
        gives("time - time", dif, a, b, [&] { return (time_point(x) - time_point(y)).count(); });
        gives("time -= duration", dif, a, b, [&] { time_point z(x); auto& r = (z -= y); return &r == &z ? z.elapsed._count : ~z.elapsed._count; });
    }
    gives("duration to seconds", i128(a) / SEC, a, 0, [&] { return x.to_seconds(); });
    six("duration order", x, y, a, b);
    six("time order", time_point(x), time_point(y), a, b);
    const struct { const char* n; i128 us; microseconds (*f)(int64_t); } unit[] = {
        {"milliseconds", 1000, eosio::milliseconds}, {"seconds", SEC, eosio::seconds}, {"minutes", 60 * SEC, eosio::minutes}, {"hours", 3600 * SEC, eosio::hours}, {"days", 86400 * SEC, eosio::days}};
    for (auto& u : unit) {
        int64_t k = rng.one_in(3) ? int64_t(i128(rng.one_in(2) ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min()) / u.us) : int64_t(any64() / u.us);
        gives(u.n, k * u.us, k, 0, [&] { return u.f(k).count(); });
    }
    if (x.count() != a || y.count() != b) violate("operand", "an operand changed");
}

void seconds() {
    uint32_t a = any32(), b = rng.one_in(3) ? a + uint32_t(rng.below(3)) - 1 : rng.one_in(2) ? uint32_t(0u - a) - uint32_t(rng.below(2)) : any32();
    const time_point_sec x(a), y(b);
    const microseconds m(rng.one_in(2) ? int64_t(b) * 1000000 + int64_t(rng.below(1000000)) : any64());
    i128 mu = m.count(), ms = mu / SEC, sum = i128(a) + b, dif = i128(a) - b;
    if (fits<uint32_t>(sum)) {
        gives("seconds +", sum, a, b, [&] { return (x + b).utc_seconds; });
        gives("seconds += number", sum, a, b, [&] { time_point_sec z = x; auto& r = (z += b); return &r == &z ? z.sec_since_epoch() : ~z.utc_seconds; });
        gives("seconds += seconds", sum, a, b, [&] { time_point_sec z = x; auto& r = (z += y); return &r == &z ? z.sec_since_epoch() : ~z.utc_seconds; });
    }
    if (fits<uint32_t>(dif)) {
        gives("seconds -", dif, a, b, [&] { return (x - b).utc_seconds; });
        gives("seconds -= number", dif, a, b, [&] { time_point_sec z = x; auto& r = (z -= b); return &r == &z ? z.sec_since_epoch() : ~z.utc_seconds; });
        gives("seconds -= seconds", dif, a, b, [&] { time_point_sec z = x; auto& r = (z -= y); return &r == &z ? z.sec_since_epoch() : ~z.utc_seconds; });
    }
    if (fits<uint32_t>(a + ms)) gives("seconds += duration", a + ms, a, mu, [&] { time_point_sec z = x; auto& r = (z += m); return &r == &z ? z.utc_seconds : ~z.utc_seconds; });
    if (fits<uint32_t>(a - ms)) gives("seconds -= duration", a - ms, a, mu, [&] { time_point_sec z = x; auto& r = (z -= m); return &r == &z ? z.utc_seconds : ~z.utc_seconds; });
    if (fits<int64_t>(a * SEC + mu)) gives("seconds + duration", a * SEC + mu, a, mu, [&] { return (x + m).time_since_epoch().count(); });
    if (fits<int64_t>(a * SEC - mu)) gives("seconds - duration", a * SEC - mu, a, mu, [&] { return (x - m).time_since_epoch().count(); });
    if (fits<int64_t>(mu - a * SEC)) gives("time - seconds", mu - a * SEC, mu, a, [&] { return (time_point(m) - x).count(); });
    gives("difference of seconds", dif * SEC, a, b, [&] { return (x - y).count(); });
    gives("seconds to time", a * SEC, a, 0, [&] { return time_point(x).elapsed.count(); });
    six("seconds order", x, y, a, b);
    six("seconds and time order", time_point(x), time_point(m), a * SEC, mu);
    gives("seconds and time equal", a * SEC == mu, a, mu, [&] { return time_point(x) == time_point(m); });
    if (x.utc_seconds != a || y.utc_seconds != b) violate("operand", "an operand changed");
}

void conversions() {
    int64_t a = any64();
    const time_point t{microseconds(a)};
    if (a >= 0 && fits<uint32_t>(a / SEC)) {
        gives("time to seconds", a / SEC, a, 0, [&] { return time_point_sec(t).utc_seconds; });
        gives("time to seconds by assignment", a / SEC, a, 0, [&] { time_point_sec z(any32()); z = t; return z.utc_seconds; });
        gives("seconds since the epoch", a / SEC, a, 0, [&] { return t.sec_since_epoch(); });
    }
    if (a >= Y2000 && fits<uint32_t>((a - Y2000) / SLOT)) {
        gives("time to slot", (a - Y2000) / SLOT, a, 0, [&] { return block_timestamp(t).slot; });
        gives("time to slot by assignment", (a - Y2000) / SLOT, a, 0, [&] { block_timestamp z(any32()); z = t; return z.slot; });
    }
    uint32_t s = any32();
    if (s * SEC >= Y2000 && fits<uint32_t>((s * SEC - Y2000) / SLOT)) gives("seconds to slot", (s * SEC - Y2000) / SLOT, s, 0, [&] { return block_timestamp(time_point_sec(s)).slot; });
    uint32_t k = any32(), l = rng.one_in(3) ? k + uint32_t(rng.below(3)) - 1 : any32();
    const block_timestamp x(k), y(l);
    gives("slot to time", Y2000 + k * SLOT, k, 0, [&] { return x.to_time_point().elapsed.count(); });
    gives("slot converted to time", Y2000 + k * SLOT, k, 0, [&] { return time_point(x).elapsed.count(); });
    gives("slot to time and back", k, k, 0, [&] { return block_timestamp(time_point(x)).slot; });
    six("slot order", x, y, k, l);
    uint32_t n = 0;
    auto e = reports([&] { n = x.next().slot; });
    seen("next slot", k);
    if (bool(e) != (k == 0xffffffffu)) violate("next slot", "the slot after " + show(k) + (e ? " is refused" : " is not refused but " + show(n)));
    if (!e && n != k + 1) violate("next slot", "the slot after " + show(k) + " is " + show(n));
    if (x.slot != k || y.slot != l || t.elapsed.count() != a) violate("operand", "an operand changed");
}

void counters_() {
    uint32_t a = any32(), b = rng.one_in(3) ? a + uint32_t(rng.below(3)) - 1 : any32();
    { const unsigned_int x(a), y(b); four("unsigned counters", x, y, a, b); four("unsigned counter and number", x, b, a, b); four("number and unsigned counter", a, y, a, b);
      gives("unsigned counter to 32 bits", a, a, 0, [&] { return uint32_t(x); });
      gives("unsigned counter to 64 bits", a, a, 0, [&] { return uint64_t(x); });
      gives("unsigned counter to size", a, a, 0, [&] { return i128(size_t(x)); });
      gives("unsigned counter assigned", b, a, b, [&] { unsigned_int z(a); auto& r = (z = b); return i128(&r == &z ? z.value : ~z.value); });
      gives("unsigned counter from 64 bits", a, a, 0, [&] { return unsigned_int(uint64_t(a)).value; });
      gives("default unsigned counter", 0, 0, 0, [&] { return unsigned_int().value; }); }
    { int32_t p = int32_t(a), q = int32_t(b);
      const signed_int x(p), y(q); four("signed counters", x, y, p, q); four("signed counter and number", x, q, p, q); four("number and signed counter", p, y, p, q);
      gives("signed counter to number", p, p, 0, [&] { return int32_t(x); });
      gives("signed counter assigned", q, p, q, [&] { signed_int z(p); auto& r = (z = q); return i128(&r == &z ? z.value : ~z.value); });
      gives("default signed counter", 0, 0, 0, [&] { return signed_int().value; });
      if (p != std::numeric_limits<int32_t>::max()) {
          gives("++counter", i128(p) + 1, p, 0, [&] { signed_int z(p); auto& r = ++z; return i128(&r == &z ? z.value : ~z.value); });
          gives("counter++ result", p, p, 0, [&] { signed_int z(p); return (z++).value; });
          gives("counter++ effect", i128(p) + 1, p, 0, [&] { signed_int z(p); z++; return z.value; });
      } }
}

void symbols() {
    std::string s;
    for (size_t i = 0, n = 1 + rng.below(7); i < n; ++i) s += char('A' + rng.below(26));
    u64 raw = 0;
    for (size_t i = s.size(); i--;) raw = raw << 8 | u64(uint8_t(s[i]));
    uint8_t p = uint8_t(rng.next());
    u64 con = rng.next();
    gives("code from text", raw, raw, 0, [&] { return symbol_code(s).raw(); });
    gives("code length", i128(s.size()), raw, 0, [&] { return symbol_code(raw).length(); });
    gives("symbol from text and precision", i128(raw << 8 | p), raw, p, [&] { return symbol(s, p).raw(); });
    gives("symbol from code and precision", i128(raw << 8 | p), raw, p, [&] { return symbol(symbol_code(raw), p).raw(); });
    const symbol y(raw << 8 | p);
    gives("precision of symbol", p, raw, p, [&] { return y.precision(); });
    gives("code of symbol", raw, raw, p, [&] { return y.code().raw(); });
    gives("valid symbol", 1, raw, p, [&] { return y.is_valid() && y.code().is_valid() && bool(y) && bool(y.code()); });
    const extended_symbol x(y, name(con));
    gives("symbol of extended symbol", i128(y.value), raw, con, [&] { return x.get_symbol().value; });
    gives("contract of extended symbol", con, raw, con, [&] { return x.get_contract().value; });
    {
        u64 r2 = rng.one_in(2) ? y.value : y.value ^ 1ull << rng.below(64), c2 = rng.one_in(2) ? con : con ^ 1ull << rng.below(64);
        const extended_symbol z{symbol{r2}, name{c2}};
        int o = y.value != r2 ? y.value < r2 ? -1 : 1 : con != c2 ? con < c2 ? -1 : 1 : 0;
        six("extended symbol order", x, z, o, 0);
        six("symbol order", y, symbol(r2), y.value, r2);
        six("code order", symbol_code(con), symbol_code(c2), con, c2);
    }
    gives("text of code", 1, raw, 0, [&] { return symbol_code(raw).to_string() == s && symbol_code(s).to_string() == s; });
    gives("text of symbol", 1, raw, p, [&] { return y.to_string() == std::to_string(int(p)) + "," + s; });
    {
        u64 v = rng.one_in(4) ? 0 : rng.one_in(3) ? 1ull << rng.below(64) : rng.next();
        gives("code that is zero or not", v != 0, v, 0, [&] { return bool(symbol_code(v)); });
        gives("symbol that is zero or not", v != 0, v, 0, [&] { return bool(symbol(v)); });
        gives("default code", 0, 0, 0, [&] { return i128(symbol_code().raw()) + symbol().raw() + extended_symbol().sym.value + extended_symbol().contract.value; });
        gives("length of no code", 0, 0, 0, [&] { return symbol_code().length(); });
        // the value read as a name: characters of 5 bits, the thirteenth of 4, some of them dots
        u64 nm = rng.next();
        for (size_t i = 0, n = rng.below(9); i < n; ++i) { unsigned k = rng.below(13); nm &= k == 12 ? ~0xfull : ~(0x1full << (59 - 5 * k)); }
        if (rng.one_in(3)) nm &= ~0ull << (4 + 5 * rng.below(12));
        std::string txt;
        for (int k = 0; k < 13; ++k) txt += ".12345abcdefghijklmnopqrstuvwxyz"[k == 12 ? nm & 15 : nm >> (59 - 5 * k) & 31];
        size_t last = txt.find_last_not_of('.');
        txt.resize(last == std::string::npos ? 0 : last + 1);
        std::string suf = txt.substr(txt.rfind('.') + 1);  // what follows the last dot, or everything
        u64 want = 0;
        if (suf.size() == txt.size()) want = nm;
        else
            for (size_t k = 0; k < suf.size(); ++k) want |= u64(std::string_view(".12345abcdefghijklmnopqrstuvwxyz").find(suf[k])) << (59 - 5 * k);
        gives("suffix of a code read as a name", i128(want), nm, 0, [&] { return symbol_code(nm).suffix().value; });
        gives("suffix of a name", i128(want), nm, 0, [&] { return name(nm).suffix().value; });
    }
    // text that is no code, and values that are no codes
    std::string bad = s;
    switch (rng.below(4)) {
    case 0: bad.resize(8 + rng.below(5), 'Q'); break;
    case 1: bad[rng.below(bad.size())] = "@[a0 .,\x7f\xc1z"[rng.below(10)]; break;
    case 2: bad.insert(rng.below(bad.size() + 1), 1, "@[a0 .,\x7f\xc1z"[rng.below(10)]); break;
    default: bad[rng.below(bad.size())] = 0;
    }
    seen("text that is no code", hash(bad));
    if (!reports([&] { symbol_code c(bad); })) violate("text that is no code", "a code is made from the text " + hex(bad) + " (hex)");
    if (!reports([&] { symbol c(bad, p); })) violate("text that is no code", "a symbol is made from the text " + hex(bad) + " (hex)");
    u64 w = raw;
    switch (rng.below(5)) {
    case 0: w = 0; break;
    case 1: w ^= u64(uint8_t(1 << (5 + rng.below(3)))) << 8 * rng.below(s.size()); break;       // a byte that is no capital
    case 2: w = raw << 8; break;                                                              // starts with no letter
    case 3: if (s.size() > 1) w &= ~(0xffull << 8 * rng.below(s.size() - 1)); else w = 1; break;  // a gap
    default: w = (raw & 0xffffffffffffull) | (u64("@[a0!"[rng.below(5)]) << 8 * std::min<size_t>(s.size(), 6)); break;
    }
    gives("value that is no code", 0, w, 0, [&] { return symbol_code(w).is_valid(); });
    u64 eight = 0;
    for (int j = 0; j < 8; ++j) eight = eight << 8 | ('A' + rng.below(26));
    gives("eight letters", 0, eight, 0, [&] { return symbol_code(eight).is_valid(); });
    gives("value that is no symbol", 0, w, p, [&] { return symbol(symbol_code(w), p).is_valid(); });
}

void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) { durations(); seconds(); conversions(); counters_(); symbols(); }
    sample("durations, times and counters within 3 of the limits of their types, partners whose sum or difference is within 2 of a limit, instants within a microsecond of a second or slot");
}
