// Names given as literals: the values the compiler computes. A program of its own, because a literal that is refused does not compile.
#include <eosio/name.hpp>
#include <cstdio>
int main() {
    using namespace eosio::literals;
#define L(x) { constexpr eosio::name n = x##_n; printf("%s %llu\n", x, (unsigned long long)n.value); }
    L("a") L("z") L("1") L("5") L("eosio") L("eosio.token") L("a.b") L(".a") L("..z") L("zzzzzzzzzzzz") L("zzzzzzzzzzzzj") L("............1")
    L("abcdefghijkl") L("mnopqrstuvwx") L("yz12345.abcd") L("aaaaaaaaaaaaa") L("12345.54321.j") L("111111111111") L("5555555555555") L("a1b2c3d4e5f1g")
}
