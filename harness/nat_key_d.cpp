#include "nat_key.hpp"
void part_d() {
    using namespace nt;
    order<var2>("variant<uint8_t,string>", 2); order<var3>("variant<vector<uint8_t>,bool,...>", 2); wide_variants(); K(std::vector<var2>); K(std::optional<var2>); K(std::map<var2, bool>);
    K(eosio::name); K(eosio::symbol); K(eosio::symbol_code); K(eosio::asset); K(eosio::extended_asset); K(eosio::bytes); K(eosio::checksum160); K(eosio::checksum256); K(eosio::checksum512); K(eosio::time_point); K(eosio::time_point_sec); K(eosio::block_timestamp);
    K(one); K(flat); K(base1); K(mid); K(derived); K(reordered); K(names); K(wide); K(ints); K(chain); K(nested); K(boxes); K(std::vector<flat>); K(std::vector<empty_t>); K(std::optional<derived>); K(std::map<one, flat>); K(std::set<derived>);
    K(bu8); K(bi8); K(bb); K(bi64); K(bs); K(bd); K(std::vector<bu8>);
}
