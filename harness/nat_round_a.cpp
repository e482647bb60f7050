#include "nat_round.hpp"
void part_a(nat::u64 i) {
    using namespace nt;
    J(bool); J(int8_t); J(uint8_t); J(int16_t); J(uint16_t); J(int32_t); J(uint32_t); J(int64_t); J(uint64_t); J(i128); J(u128); J(float); J(double); J(std::string);
    B(e8); B(s8); B(e16); B(s32); B(s64);
    J(eosio::name); J(eosio::symbol); J(eosio::symbol_code); J(eosio::asset); J(eosio::extended_asset); J(eosio::bytes);
    J(eosio::checksum160); J(eosio::checksum256); J(eosio::checksum512); J(eosio::time_point); J(eosio::time_point_sec); J(eosio::block_timestamp); J(eosio::varuint32); J(eosio::varint32);
}
