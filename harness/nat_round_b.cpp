#include "nat_round.hpp"
void part_b(nat::u64 i) {
    using namespace nt;
    J(empty_t); J(one); J(flat); J(base1); J(mid); J(derived); J(reordered); J(names); J(ints); J(chain); J(nested);
    if (i % 4 == 0) J(wide);
    B(boxes);
}
