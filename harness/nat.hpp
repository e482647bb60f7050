// In-process workloads with monitors: random values, an independent model of equality, order and encoding, and event accounting.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_set>
#include <variant>
#include <vector>

namespace nat {
using u64 = uint64_t;
using i128 = __int128;
using u128 = unsigned __int128;

struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9e3779b97f4a7c15ull + 1) {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool one_in(u64 n) { return below(n) == 0; }
};
inline Rng rng{1};

inline std::map<std::string, u64> counters;
inline std::unordered_set<u64> distinct;
inline std::map<std::string, std::string> violations;
inline std::vector<std::string> samples;
inline std::string current; // shown when the process dies

inline u64 hash(const void* p, size_t n, u64 h = 1469598103934665603ull) {
    auto c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline u64 hash(const std::string& s, u64 h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
inline std::string hex(const std::string& s) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string hex(const std::vector<char>& v) { return hex(std::string(v.begin(), v.end())); }
inline std::string str(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }

// one judged observation
inline void seen(const char* what, u64 h) {
    ++counters[what];
    ++counters["evaluations"];
    if (distinct.size() < 3000000) distinct.insert(hash(what, strlen(what), h));
}
inline void note(const char* what, u64 k = 1) { counters[what] += k; }
inline void violate(const std::string& key, const std::string& what) { if (violations.size() < 30) violations.emplace(key, what.substr(0, 1500)); }
inline void sample(const std::string& s) { if (samples.size() < 6) samples.push_back(s.substr(0, 300)); }

// runs f; empty if it returned, otherwise the reported error
template <typename F>
std::optional<std::string> reports(F&& f) {
    try { f(); } catch (const std::exception& e) { return std::string(*e.what() ? e.what() : "(no message)"); }
    return {};
}

// exactly-sized heap buffer: ASan sees any access outside it
struct buffer {
    std::unique_ptr<char[]> p;
    size_t n;
    explicit buffer(size_t n) : p(new char[n]), n(n) { memset(p.get(), 0x5a, n); }
    explicit buffer(const std::string& s) : buffer(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
    char* begin() { return p.get(); }
    char* end() { return p.get() + n; }
};

void run(u64 cases, bool thorough); // the workload of one program
} // namespace nat

#ifdef NAT_MAIN
int main(int argc, char** argv) {
    using namespace nat;
    if (argc < 5) return 2;
    rng = Rng(strtoull(argv[1], nullptr, 10));
    bool thorough = !strcmp(argv[3], "thorough");
    run(strtoull(argv[2], nullptr, 10), thorough);
    FILE* f = fopen(argv[4], "wb");
    if (!f) return 2;
    for (auto& c : counters) fprintf(f, "C %llu %s\n", (unsigned long long)c.second, c.first.c_str());
    for (auto& s : samples) fprintf(f, "S %s\n", hex(s).c_str());
    for (auto& v : violations) fprintf(f, "V %s %s\n", hex(v.first).c_str(), hex(v.second).c_str());
    fprintf(f, "H %zu\n", distinct.size());
    for (u64 h : distinct) fwrite(&h, 8, 1, f);
    fclose(f);
    return 0;
}
#endif
