// Containers around the sizes where the length encoding grows.
#include "nat_round.hpp"

namespace nt {
struct one16 { uint16_t v = 0; auto all() { return std::tie(v); } };
EOSIO_REFLECT(one16, v)
} // namespace nt

template <typename T>
void sized(const char* name, size_t n, bool json) {
    T v;
    auto put = [&](auto x) {
        if constexpr (is_a<T, std::set>::value || is_a<T, std::map>::value) v.insert(x);
        else if constexpr (std::is_same_v<T, eosio::bytes>) v.data.push_back(x);
        else v.push_back(x);
    };
    for (size_t i = 0; i < n; ++i) {
        size_t k = i * 40503 + 7;
        if constexpr (std::is_same_v<T, std::string>) put(char('a' + k % 26));
        else if constexpr (std::is_same_v<T, eosio::bytes>) put(char(k));
        else if constexpr (is_a<T, std::map>::value) put(typename T::value_type(uint32_t(i), uint8_t(k)));
        else if constexpr (is_a<T, std::set>::value) put(uint32_t(i));
        else if constexpr (std::is_same_v<typename T::value_type, std::string>) put(std::string(i % 3, char('a' + k % 26)));
        else if constexpr (std::is_same_v<typename T::value_type, nt::one16>) put(nt::one16{uint16_t(k)});
        else put(typename T::value_type(k));
    }
    std::string label = std::string(name) + " of " + std::to_string(n);
    bin_of<T>(label.c_str(), v);
    if constexpr (!is_a<T, std::set>::value && !is_a<T, std::map>::value && !is_a<T, std::list>::value && !is_a<T, std::deque>::value)
        if (json) json_of<T>(label.c_str(), v);
}
#define S(...) sized<__VA_ARGS__>(#__VA_ARGS__, n, json)

void part_f(nat::u64 i) {
    using namespace nt;
    static const size_t sizes[] = {127, 128, 129, 255, 256, 257, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000};
    if (i >= std::size(sizes)) return;
    size_t n = sizes[i];
    bool json = true;
    S(std::string); S(eosio::bytes); S(std::vector<uint8_t>); S(std::vector<int16_t>); S(std::vector<u64>); S(std::vector<double>); S(std::vector<std::string>); S(std::vector<one16>);
    S(std::list<uint32_t>); S(std::deque<std::string>); S(std::set<uint32_t>); S(std::map<uint32_t, uint8_t>);
}
