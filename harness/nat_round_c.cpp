#include "nat_round.hpp"
void part_c(nat::u64 i) {
    using namespace nt;
    J(std::vector<uint8_t>); J(std::vector<int64_t>); J(std::vector<double>); J(std::vector<i128>); J(std::vector<std::string>); J(std::vector<std::vector<uint16_t>>); J(std::vector<flat>); J(std::vector<eosio::name>);
    B(std::vector<e16>); B(std::vector<boxes>); B(std::vector<eosio::varuint32>);
    B(std::list<uint32_t>); B(std::list<std::string>); B(std::list<std::list<flat>>); B(std::deque<int16_t>); B(std::deque<derived>);
    B(std::set<int32_t>); B(std::set<std::string>); B(std::set<std::vector<uint8_t>>); B(std::set<one>); B(std::set<i128>);
}
