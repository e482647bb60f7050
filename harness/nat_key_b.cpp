#include "nat_key.hpp"
void part_b() {
    using namespace nt;
    K(std::list<uint8_t>); K(std::list<bool>); K(std::list<std::string>); K(std::deque<int8_t>); K(std::deque<int32_t>); K(std::deque<bool>);
    K(std::set<uint8_t>); K(std::set<std::string>); K(std::set<bool>); K(std::set<std::vector<int8_t>>); K(std::map<uint8_t, uint8_t>); K(std::map<std::string, std::vector<uint8_t>>); K(std::map<bool, std::string>); K(std::map<std::string, std::map<int8_t, bool>>);
}
