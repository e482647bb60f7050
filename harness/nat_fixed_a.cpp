#include "nat_fixed.hpp"
void part_a() { all_sizes<uint8_t, 1, 2, 3, 8, 20, 33>(); }
