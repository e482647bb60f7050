// C26: what enumeration of a reflected type yields (names, order, addresses, constness, methods, by-name selection), against hand-written tables.
#define NAT_MAIN
#include "nat_reflect.hpp"

namespace rt {
struct none {};
EOSIO_REFLECT(none)
inline table expected(none&) { return {}; }

struct one { int64_t only{}; };
EOSIO_REFLECT(one, only)
inline table expected(one& o) { return { { "only", &o.only, sizeof o.only } }; }

// listed in another order than declared, one declared member not listed
struct perm { uint8_t a{}; uint32_t hidden = 7; uint16_t b{}; std::string c; uint64_t d{}; };
EOSIO_REFLECT(perm, d, b, c, a)
inline table expected(perm& o) { return { { "d", &o.d, 8 }, { "b", &o.b, 2 }, { "c", &o.c, sizeof o.c }, { "a", &o.a, 1 } }; }

// names that meet the macros' own words and parameters
struct words { uint8_t f{}, p{}, base_x{}, based{}, BASE{}, MEMBER{}, STRUCT{}, FIELD{}, name{}, member{}, T{}, field{}, obj{}, t{}, x{}, arg0{}, peek{}, _{}, bas{}; };
EOSIO_REFLECT(words, f, p, base_x, based, BASE, MEMBER, STRUCT, FIELD, name, member, T, field, obj, t, x, arg0, peek, _, bas)
inline table expected(words& o) {
    return { { "f", &o.f, 1 }, { "p", &o.p, 1 }, { "base_x", &o.base_x, 1 }, { "based", &o.based, 1 }, { "BASE", &o.BASE, 1 }, { "MEMBER", &o.MEMBER, 1 }, { "STRUCT", &o.STRUCT, 1 }, { "FIELD", &o.FIELD, 1 },
             { "name", &o.name, 1 }, { "member", &o.member, 1 }, { "T", &o.T, 1 }, { "field", &o.field, 1 }, { "obj", &o.obj, 1 }, { "t", &o.t, 1 }, { "x", &o.x, 1 }, { "arg0", &o.arg0, 1 }, { "peek", &o.peek, 1 }, { "_", &o._, 1 }, { "bas", &o.bas, 1 } };
}

struct left { uint32_t l1{}; uint8_t l2{}; };
EOSIO_REFLECT(left, l1, l2)
inline table expected(left& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 } }; }
struct right { uint16_t r1{}; std::vector<uint8_t> r2; };
EOSIO_REFLECT(right, r1, r2)
struct derived : left { uint64_t own{}; };
EOSIO_REFLECT(derived, base left, own)
inline table expected(derived& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "own", &o.own, 8 } }; }
struct both : left, right { uint8_t z{}; };
EOSIO_REFLECT(both, base left, base right, z)
inline table expected(both& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "r1", &o.r1, 2 }, { "r2", &o.r2, sizeof o.r2 }, { "z", &o.z, 1 } }; }
struct deep : both { uint32_t w{}; };
EOSIO_REFLECT(deep, base both, w)
inline table expected(deep& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "r1", &o.r1, 2 }, { "r2", &o.r2, sizeof o.r2 }, { "z", &o.z, 1 }, { "w", &o.w, 4 } }; }
struct only_base : derived {};
EOSIO_REFLECT(only_base, base derived)
inline table expected(only_base& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "own", &o.own, 8 } }; }
struct late : right, left { uint8_t k{}; }; // a base listed after a member, and bases listed in another order than inherited
EOSIO_REFLECT(late, base left, k, base right)
inline table expected(late& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "k", &o.k, 1 }, { "r1", &o.r1, 2 }, { "r2", &o.r2, sizeof o.r2 } }; }
struct vbase { virtual ~vbase() {} uint32_t v{}; };
EOSIO_REFLECT(vbase, v)
struct vder : left, vbase { uint32_t u{}; };
EOSIO_REFLECT(vder, base left, base vbase, u)
inline table expected(vder& o) { return { { "l1", &o.l1, 4 }, { "l2", &o.l2, 1 }, { "v", &o.v, 4 }, { "u", &o.u, 4 } }; }

struct meth {
    int32_t a{};
    int twice(int i) { return i * 2; }
    uint8_t b{};
    std::string text(const std::string& s) const { return s + "!"; }
    void store(int32_t i) { a = i; }
    int32_t load() const noexcept { return a; }
};
EOSIO_REFLECT(meth, a, twice, text, b, store, load)
inline table expected(meth& o) { return { { "a", &o.a, 4 }, { "b", &o.b, 1 } }; }
struct mder : meth { int64_t c{}; int thrice(int i) { return i * 3; } };
EOSIO_REFLECT(mder, thrice, base meth, c)
inline table expected(mder& o) { return { { "a", &o.a, 4 }, { "b", &o.b, 1 }, { "c", &o.c, 8 } }; }
struct monly { int m1() { return 1; } int m2() { return 2; } int m3() { return 3; } };
EOSIO_REFLECT(monly, m1, m2, m3)
inline table expected(monly&) { return {}; }

struct hidden_members {
    uint32_t pub{};
    const void* at() const { return &secret; }
private:
    uint64_t secret{};
    template <typename F> friend constexpr void eosio_for_each_field(hidden_members*, F);
};
EOSIO_REFLECT(hidden_members, pub, secret)
inline table expected(hidden_members& o) { return { { "pub", &o.pub, 4 }, { "secret", o.at(), 8 } }; }

template <typename A> struct tmpl { A a{}; std::optional<A> b; std::vector<tmpl> c; };
using tmpl_u16 = tmpl<uint16_t>;
EOSIO_REFLECT(tmpl_u16, a, b, c)
inline table expected(tmpl_u16& o) { return { { "a", &o.a, 2 }, { "b", &o.b, sizeof o.b }, { "c", &o.c, sizeof o.c } }; }

struct kinds { bool a{}; double b{}; uint32_t c[4]{}; std::array<uint8_t, 3> d{}; std::pair<uint8_t, uint16_t> e{}; const uint32_t f = 5; one g; std::unique_ptr<int> h; int* i = nullptr; enum en : uint8_t { x, y } j = x; unsigned __int128 k{}; };
EOSIO_REFLECT(kinds, a, b, c, d, e, f, g, h, i, j, k)
inline table expected(kinds& o) {
    return { { "a", &o.a, sizeof o.a }, { "b", &o.b, 8 }, { "c", &o.c, 16 }, { "d", &o.d, 3 }, { "e", &o.e, sizeof o.e }, { "f", &o.f, 4 }, { "g", &o.g, sizeof o.g }, { "h", &o.h, sizeof o.h }, { "i", &o.i, sizeof o.i }, { "j", &o.j, 1 }, { "k", &o.k, 16 } };
}
} // namespace rt

static void methods() {
    using namespace rt;
    std::vector<std::string> got;
    meth o;
    eosio::for_each_method<meth>([&](const char* n, auto m) {
        got.push_back(n);
        using M = decltype(m);
        int k = (int)rng.below(1000);
        bool ok = false;
        if constexpr (std::is_same_v<M, int (meth::*)(int)>) ok = (o.*m)(k) == 2 * k && m == &meth::twice && got.back() == "twice";
        else if constexpr (std::is_same_v<M, std::string (meth::*)(const std::string&) const>) ok = (o.*m)("ab") == "ab!" && got.back() == "text";
        else if constexpr (std::is_same_v<M, void (meth::*)(int32_t)>) { (o.*m)(k + 1); ok = o.a == k + 1 && got.back() == "store"; }
        else if constexpr (std::is_same_v<M, int32_t (meth::*)() const noexcept>) ok = (o.*m)() == o.a && got.back() == "load";
        seen("methods called", hash(n) + k);
        if (!ok) violate("method " + got.back(), "method " + got.back() + " is not the member function of that name");
    });
    if (got != std::vector<std::string>{ "twice", "text", "store", "load" }) violate("methods", "methods of meth: wrong names or order");
    got.clear();
    eosio::for_each_method<mder>([&](const char* n, auto) { got.push_back(n); });
    if (got != std::vector<std::string>{ "thrice", "twice", "text", "store", "load" }) violate("methods base", "methods of mder: wrong names or order");
    got.clear();
    monly q;
    int sum = 0, w = 1;
    eosio::for_each_method<monly>([&](const char* n, auto m) { got.push_back(n); sum += w * (q.*m)(); w *= 10; });
    if (got != std::vector<std::string>{ "m1", "m2", "m3" } || sum != 321) violate("methods only", "methods of monly: wrong names, order or functions");
    seen("method lists", sum);
}

void nat::run(u64 cases, bool) {
    using namespace rt;
    for (u64 k = 0; k < cases; ++k) {
#define E(T) { auto o = std::make_unique<T>(); enumerate(#T, *o); }
        E(none) E(one) E(perm) E(words) E(derived) E(both) E(deep) E(only_base) E(late) E(vder) E(meth) E(mder) E(monly) E(hidden_members) E(tmpl_u16) E(kinds)
        values<one>("one"); values<words>("words"); values<left>("left"); values<derived>("derived"); values<only_base>("only_base"); values<perm>("perm"); values<both>("both"); values<hidden_members>("hidden_members");
        values<meth>("meth"); values<mder>("mder");
        methods();
        wide_types();
        if (k % 8 == 0) library_types();
    }
    sample("late: l1 l2 k r1 r2; deep: l1 l2 r1 r2 z w");
}
