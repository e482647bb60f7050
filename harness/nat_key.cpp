#define NAT_MAIN
#include "nat_key.hpp"

void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) { part_a(); part_b(); part_c(); part_d(); }
    auto k = eosio::convert_to_key(std::string("a\0b", 3));
    sample("key of the string a NUL b is " + hex(k));
}
