#include "nat_fixed.hpp"
void part_e() { all_sizes<u128, 1, 8, 15, 16, 17, 20, 32, 33, 65>(); }
