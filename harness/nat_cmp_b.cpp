#include "nat_cmp.hpp"
void part_b() { using namespace nt; T(wide); T(nested); T(boxes); T(chain); T(deep); T(tmpl<uint16_t>); }
