#include "nat_key.hpp"
void part_a() {
    using namespace nt;
    order<bool>("bool"); order<int8_t>("int8_t", 3); order<uint8_t>("uint8_t", 3); order<char>("char", 2); order<int16_t>("int16_t", 3); order<uint16_t>("uint16_t", 3); order<int32_t>("int32_t", 3); order<uint32_t>("uint32_t", 3);
    order<int64_t>("int64_t", 3); order<uint64_t>("uint64_t", 3); order<i128>("int128", 3); order<u128>("uint128", 3); order<float>("float", 4); order<double>("double", 4); order<std::string>("string", 4);
    K(e8); K(s8); K(e16); K(s32); K(s64);
    K(std::vector<uint8_t>); K(std::vector<int8_t>); K(std::vector<char>); K(std::vector<uint16_t>); K(std::vector<int64_t>); K(std::vector<std::string>); K(std::vector<std::vector<uint8_t>>); K(std::vector<e8>); K(std::vector<s8>); K(std::vector<double>); K(std::vector<std::optional<uint8_t>>);
}
