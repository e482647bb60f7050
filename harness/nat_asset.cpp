// Asset arithmetic against 128-bit integer arithmetic.
#define NAT_MAIN
#include "nat_types.hpp"
using namespace nat;
using eosio::asset; using eosio::extended_asset; using eosio::symbol; using eosio::name;
constexpr int64_t MAX = (int64_t(1) << 62) - 1;
constexpr int64_t MIN64 = std::numeric_limits<int64_t>::min();

std::string show(i128 v) { bool n = v < 0; u128 u = n ? -u128(v) : u128(v); std::string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u); return n ? "-" + s : s; }
bool fits(i128 v) { return -i128(MAX) <= v && v <= MAX; }
i128 mag(i128 v) { return v < 0 ? -v : v; }

int64_t amount(bool any) {
    int64_t v;
    switch (rng.below(8)) {
    case 0: v = MAX - int64_t(rng.below(4)); break;
    case 1: v = int64_t(rng.below(7)) - 3; break;
    case 2: v = (MAX >> rng.below(62)) + int64_t(rng.below(3)) - 1; break;
    case 3: v = MAX / int64_t(1 + rng.below(5)) + int64_t(rng.below(3)) - 1; break;
    case 4: v = int64_t(rng.next() >> (2 + rng.below(60))); break;
    default: v = int64_t(rng.next()) >> 2;
    }
    if (rng.one_in(2)) v = -v;
    if (any) switch (rng.below(5)) { case 0: v = MIN64 + int64_t(rng.below(3)); break; case 1: v = std::numeric_limits<int64_t>::max() - int64_t(rng.below(3)); break; case 2: v = int64_t(rng.next()); break; }
    else if (v > MAX) v = MAX;
    else if (v < -MAX) v = -MAX;
    return v;
}
asset make(int64_t a, u64 s) { asset r; r.amount = a; r.symbol.value = s; return r; }
// partner near a limit of the operation
int64_t partner(int64_t a, bool any) {
    switch (rng.below(6)) {
    case 0: { i128 v = i128(MAX) - a; return fits(v) ? int64_t(v) : amount(any); }
    case 1: { i128 v = i128(MAX) - a + int(rng.below(3)) - 1; return fits(v) ? int64_t(v) : amount(any); }
    case 2: { i128 v = -i128(MAX) - a + int(rng.below(3)) - 1; return fits(v) ? int64_t(v) : amount(any); }
    case 3: { i128 v = i128(a) - MAX + int(rng.below(3)) - 1; return fits(v) ? int64_t(v) : amount(any); }
    case 4: { i128 v = i128(a) + MAX + int(rng.below(3)) - 1; return fits(v) ? int64_t(v) : amount(any); }
    }
    return amount(any);
}
int64_t factor(int64_t a) {
    switch (rng.below(6)) {
    case 0: return int64_t(rng.below(7)) - 3;
    case 1: return a ? MAX / a + int64_t(rng.below(3)) - 1 : 1;
    case 2: return a ? -(MAX / a) + int64_t(rng.below(3)) - 1 : -1;
    case 3: return rng.one_in(2) ? MIN64 : std::numeric_limits<int64_t>::max();
    case 4: return int64_t(rng.next() >> rng.below(64));
    default: return int64_t(rng.next());
    }
}

// want: the exact result if the operation must succeed. valid: the operands were valid assets (then refusal must be exactly "no valid result")
struct expect { std::optional<i128> exact; bool valid; };
template <typename F>
void judge(const char* op, const asset& a0, i128 other, const expect& x, F f, const asset* left) {
    asset r;
    auto e = reports([&] { r = f(); });
    bool ok = x.exact && fits(*x.exact);
    seen(ok ? "exact result" : "refused operation", hash(op, strlen(op), a0.amount * 1000003ull ^ u64(other)));
    std::string what = show(a0.amount) + " " + op + " " + show(other);
    if (x.valid) {
        if (bool(e) == ok) violate(std::string("outcome ") + op, what + (e ? " is refused: " + *e : " gives " + show(r.amount) + " though it has no valid result"));
    } else if (!e && !x.exact) violate(std::string("outcome ") + op, what + " gives " + show(r.amount));
    if (!e && x.exact && i128(r.amount) != *x.exact) violate(std::string("result ") + op, what + " gives " + show(r.amount) + ", should be " + show(*x.exact));
    if (!e && r.symbol.value != a0.symbol.value) violate(std::string("symbol ") + op, what + " changes the symbol");
    if (e && left && (left->amount != a0.amount || left->symbol.value != a0.symbol.value)) violate(std::string("operand ") + op, what + " is refused but leaves the operand at " + show(left->amount));
}

void pair_ops(bool any) {
    opts o;
    u64 s = gen<symbol>(o).value, s2 = rng.below(4) ? s : rng.one_in(2) ? s ^ (1 + rng.below(255)) : gen<symbol>(o).value;
    bool mix = s != s2;
    asset a = make(amount(any), s), b = make(0, s2);
    b.amount = partner(a.amount, any);
    bool valid = fits(a.amount) && fits(b.amount);
    auto ex = [&](i128 v) { return mix ? expect{{}, valid} : expect{v, valid}; };
    const asset b0 = b;
    { asset x = a; judge("+=", a, b.amount, ex(i128(a.amount) + b.amount), [&] { x += b; return x; }, &x); }
    { asset x = a; judge("-=", a, b.amount, ex(i128(a.amount) - b.amount), [&] { x -= b; return x; }, &x); }
    { asset x = a; judge("+", a, b.amount, ex(i128(a.amount) + b.amount), [&] { return x + b; }, &x); }
    { asset x = a; judge("-", a, b.amount, ex(i128(a.amount) - b.amount), [&] { return x - b; }, &x); }
    { asset x = a; judge("+= itself", a, a.amount, {i128(a.amount) * 2, fits(a.amount)}, [&] { x += x; return x; }, &x); }
    { asset x = a; judge("-= itself", a, a.amount, {i128(0), fits(a.amount)}, [&] { x -= x; return x; }, &x); }
    { asset x = a; judge("negated", a, 0, {-i128(a.amount), fits(a.amount)}, [&] { return -x; }, &x); }
    // quotient of two assets
    {
        int64_t q = 0;
        auto e = reports([&] { q = a / b; });
        bool ok = !mix && b.amount;
        seen("quotient of assets", a.amount * 31ull ^ b.amount);
        if (valid && bool(e) == ok) violate("outcome asset/asset", show(a.amount) + " / " + show(b.amount) + (e ? " is refused" : " is not refused"));
        if (!e && (!ok || i128(q) != i128(a.amount) / b.amount)) violate("result asset/asset", show(a.amount) + " / " + show(b.amount) + " gives " + show(q));
    }
    auto rel = [&](const char* op, bool want, auto f) {
        bool r = false;
        auto e = reports([&] { r = f(); });
        seen("comparison", hash(op, strlen(op), a.amount * 31ull ^ b.amount));
        if (bool(e) != mix) violate(std::string("outcome ") + op, show(a.amount) + " " + op + " " + show(b.amount) + (mix ? " with different symbols is not refused" : " is refused"));
        else if (!e && r != want) violate(std::string("result ") + op, show(a.amount) + " " + op + " " + show(b.amount) + " is wrong");
    };
    if (rng.one_in(4)) b.amount = a.amount;
    rel("==", a.amount == b.amount, [&] { return a == b; }); rel("!=", a.amount != b.amount, [&] { return a != b; });
    rel("<", a.amount < b.amount, [&] { return a < b; }); rel("<=", a.amount <= b.amount, [&] { return a <= b; });
    rel(">", a.amount > b.amount, [&] { return a > b; }); rel(">=", a.amount >= b.amount, [&] { return a >= b; });
    if (b0.symbol.value != b.symbol.value) violate("right operand", "the right operand changed");
}

void scalar_ops(bool any) {
    opts o;
    asset a = make(amount(any), gen<symbol>(o).value);
    int64_t k = factor(a.amount);
    bool valid = fits(a.amount);
    i128 p = i128(a.amount) * k;
    { asset x = a; judge("*=", a, k, {p, valid}, [&] { x *= k; return x; }, &x); }
    { asset x = a; judge("*", a, k, {p, valid}, [&] { return x * k; }, &x); }
    { asset x = a; judge("* (reversed)", a, k, {p, valid}, [&] { return k * x; }, &x); }
    if (rng.one_in(6)) k = 0;
    std::optional<i128> q;
    if (k) q = i128(a.amount) / k;
    { asset x = a; judge("/=", a, k, {q, valid}, [&] { x /= k; return x; }, &x); }
    { asset x = a; judge("/", a, k, {q, valid}, [&] { return x / k; }, &x); }
    int64_t n = amount(true);
    { asset x = a; judge("set_amount", a, n, {i128(n), true}, [&] { x.set_amount(n); return x; }, &x); }
    asset made;
    symbol s = rng.below(3) ? gen<symbol>(o) : symbol();
    if (rng.one_in(3)) s.value = s.value & ~(u64(0xff) << (8 * (1 + rng.below(3)))); // a gap in the code
    bool gap = false, end = false, any_letter = false;
    for (int i = 1; i < 8; ++i) { unsigned char c = s.value >> (8 * i); if (!c) end = true; else { if (end || c < 'A' || c > 'Z') gap = true; any_letter = true; } }
    bool ok = fits(n) && any_letter && !gap;
    auto e = reports([&] { made = asset(n, s); });
    seen("construction", n ^ s.value);
    if (bool(e) == ok) violate("construction", "asset(" + show(n) + ", symbol " + show(s.value) + (e ? ") is refused" : ") is not refused"));
    if (!e && (made.amount != n || made.symbol.value != s.value)) violate("construction value", "a constructed asset has another value");
    asset v = make(n, s.value);
    if (v.is_valid() != ok || v.is_amount_within_range() != fits(n)) violate("is_valid", "is_valid of " + show(n) + " with symbol " + show(s.value) + " is " + show(v.is_valid()));
}

void extended(bool any) {
    opts o;
    u64 s = gen<symbol>(o).value, s2 = rng.below(5) ? s : gen<symbol>(o).value;
    extended_asset a, b;
    a.quantity = make(amount(any), s); a.contract.value = rng.next();
    b.quantity = make(partner(a.quantity.amount, any), s2); b.contract.value = rng.below(4) ? a.contract.value : a.contract.value ^ (u64(1) << rng.below(64));
    bool mix = s != s2 || a.contract.value != b.contract.value, other = a.contract.value != b.contract.value;
    bool valid = fits(a.quantity.amount) && fits(b.quantity.amount);
    i128 x1 = i128(a.quantity.amount) + b.quantity.amount, x2 = i128(a.quantity.amount) - b.quantity.amount;
    auto ex = [&](i128 v) { return mix ? expect{{}, valid} : expect{v, valid}; };
    auto con = [&](const extended_asset& r) { if (r.contract.value != a.contract.value) violate("extended contract", "the contract of the result is another"); return r.quantity; };
    i128 y = b.quantity.amount;
    { extended_asset x = a; judge("extended +=", a.quantity, y, ex(x1), [&] { x += b; return con(x); }, &x.quantity); con(x); }
    { extended_asset x = a; judge("extended -=", a.quantity, y, ex(x2), [&] { x -= b; return con(x); }, &x.quantity); con(x); }
    { extended_asset x = a; judge("extended +", a.quantity, y, ex(x1), [&] { return con(x + b); }, &x.quantity); con(x); }
    { extended_asset x = a; judge("extended -", a.quantity, y, ex(x2), [&] { return con(x - b); }, &x.quantity); con(x); }
    { extended_asset x = a; judge("extended negated", a.quantity, 0, {-i128(a.quantity.amount), fits(a.quantity.amount)}, [&] { return con(-x); }, &x.quantity); con(x); }
    if (rng.one_in(4)) b.quantity.amount = a.quantity.amount;
    int c = a.quantity.amount < b.quantity.amount ? -1 : a.quantity.amount > b.quantity.amount;
    auto rel = [&](const char* op, bool want, bool refuse, bool eq, auto f) {
        bool r = false;
        auto e = reports([&] { r = f(); });
        seen("extended comparison", hash(op, strlen(op), a.quantity.amount * 31ull ^ y));
        if (eq && s != s2) return; // comparing equality of different symbols may report
        if (bool(e) != refuse) violate(std::string("outcome extended ") + op, std::string("extended assets ") + op + (refuse ? " of different kinds is not refused" : " is refused"));
        else if (!e && r != want) violate(std::string("result extended ") + op, show(a.quantity.amount) + " " + op + " " + show(b.quantity.amount) + (other ? " of different contracts" : "") + " is wrong");
    };
    rel("==", !c && !other, false, true, [&] { return a == b; }); rel("!=", c || other, false, true, [&] { return a != b; });
    rel("<", c < 0, mix, false, [&] { return a < b; }); rel("<=", c <= 0, mix, false, [&] { return a <= b; }); rel(">=", c >= 0, mix, false, [&] { return a >= b; });
    auto es = a.get_extended_symbol();
    if (es.get_symbol().value != s || es.get_contract().value != a.contract.value) violate("extended symbol", "get_extended_symbol gives another symbol or contract");
    extended_asset made;
    auto e = reports([&] { made = extended_asset(a.quantity.amount, es); });
    if (bool(e) == fits(a.quantity.amount)) violate("extended construction", "extended_asset(" + show(a.quantity.amount) + (e ? ") is refused" : ") is not refused"));
    if (!e && (made.quantity.amount != a.quantity.amount || made.quantity.symbol.value != s || made.contract.value != a.contract.value)) violate("extended construction", "a constructed extended asset has another value");
}

void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) { bool any = rng.one_in(4); pair_ops(any); scalar_ops(any); extended(any); }
    sample("amounts within 3 of the limits 2^62-1 and -(2^62-1), partners on either side of the overflow, one quarter of the cases with operands outside the valid range");
}
