#define NAT_MAIN
#include "nat_fixed.hpp"

// constant evaluation gives the same layout
const eosio::checksum160 ct(std::array<uint32_t, 5>{0x00010203, 0x04050607, 0x08090a0b, 0x0c0d0e0f, 0x10111213});

void nat::run(u64 cases, bool) {
    std::array<uint8_t, 20> b;
    for (int i = 0; i < 20; ++i) b[i] = i;
    judge<20, uint32_t>().holds(ct, b, "built at compile time");
    for (u64 i = 0; i < cases; ++i) { part_a(); part_b(); part_c(); part_d(); part_e(); }
    sample("checksum160 of 00..13: " + eosio::convert_to_json(ct));
}
