#include "nat_cmp.hpp"
void part_a() { using namespace nt; T(empty_t); T(one); T(flat); T(base1); T(mid); T(derived); T(reordered); T(names); T(ints); T(lone); T(pairs); T(bare); T(std::vector<pairs>); T(std::optional<bare>); }
