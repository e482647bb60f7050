#include "nat_key.hpp"
void part_c() {
    using namespace nt;
    K(std::optional<uint8_t>); K(std::optional<int8_t>); K(std::optional<bool>); K(std::optional<uint32_t>); K(std::optional<std::string>); K(std::optional<std::optional<uint8_t>>); K(std::optional<std::optional<bool>>); K(std::optional<std::deque<bool>>); K(std::optional<e8>); K(std::optional<double>);
    K(std::pair<uint8_t, std::string>); K(std::pair<std::string, std::string>); K(std::tuple<std::string, uint8_t>); K(std::tuple<std::vector<uint8_t>, std::vector<uint8_t>>); K(std::tuple<std::optional<uint8_t>, bool, std::optional<std::string>>); K(std::tuple<var2, uint8_t>); K(std::tuple<std::optional<bool>, std::list<uint8_t>, int8_t>);
    K(std::array<int16_t, 3>); K(std::array<std::string, 2>); K(std::array<std::vector<uint8_t>, 2>);
}
