#include "nat_round.hpp"
void part_d(nat::u64 i) {
    using namespace nt;
    B(std::map<uint8_t, std::string>); B(std::map<std::string, std::map<int8_t, std::vector<one>>>); B(std::map<std::string, derived>); B(std::vector<std::map<eosio::name, bool>>);
    B(std::pair<uint16_t, std::string>); B(std::vector<std::pair<std::string, std::string>>); B(std::tuple<>); B(std::tuple<uint8_t>); B(std::tuple<std::string, i128, std::vector<int8_t>, bool>);
    B(std::array<uint8_t, 5>); B(std::array<std::string, 3>); B(std::array<std::array<int32_t, 2>, 2>); B(std::array<std::optional<one>, 2>);
    J(std::optional<uint32_t>); J(std::optional<std::string>); J(std::optional<flat>); B(std::optional<std::optional<uint8_t>>); J(std::vector<std::optional<uint64_t>>); J(std::optional<std::vector<uint16_t>>);
    J(bigvar); J(std::vector<bigvar>); J(std::optional<bigvar>); B(std::variant<std::variant<uint8_t, std::string>, std::map<uint8_t, uint8_t>>);
    c_arrays();
}
