#include "nat_fixed.hpp"
void part_c() { all_sizes<uint32_t, 1, 3, 4, 7, 20, 34, 64>(); }
