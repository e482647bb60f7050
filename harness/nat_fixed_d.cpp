#include "nat_fixed.hpp"
void part_d() { all_sizes<uint64_t, 1, 7, 8, 9, 20, 32, 33, 64, 70>(); }
