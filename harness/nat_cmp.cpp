#define NAT_MAIN
#include "nat_cmp.hpp"
void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) { part_a(); part_b(); part_c(); }
    std::string s;
    for (auto& m : missing) s += m.first + "; ";
    sample("operators that do not exist: " + s);
}
