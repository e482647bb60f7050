#include "nat_fixed.hpp"
void part_b() { all_sizes<uint16_t, 1, 2, 3, 5, 16, 21, 64>(); }
