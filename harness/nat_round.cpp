#define NAT_MAIN
#include "nat_round.hpp"

void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) { part_a(i); part_b(i); part_c(i); part_d(i); part_e(i); part_f(i); }
    sample("flat value " + eosio::convert_to_json(gen<nt::flat>({true})));
    sample("nested value " + eosio::convert_to_json(gen<nt::nested>({true})));
}
