// Driver protocol shared by the translation units of the event-log harness.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vh {

// An argument of an operation: an exactly-sized heap copy, so that ASan sees one-byte over-reads.
struct arg {
    bool null = false;
    std::string s; // decoded bytes
    // NUL-terminated copy of exactly size+1 bytes
    std::unique_ptr<char[]> cstr() const {
        if (null) return nullptr;
        std::unique_ptr<char[]> p(new char[s.size() + 1]);
        memcpy(p.get(), s.data(), s.size());
        p[s.size()] = 0;
        return p;
    }
    // copy of exactly size bytes, no terminator
    std::unique_ptr<char[]> raw() const {
        if (null) return nullptr;
        std::unique_ptr<char[]> p(new char[s.size()]);
        if (s.size()) memcpy(p.get(), s.data(), s.size());
        return p;
    }
    uint64_t num() const { return strtoull(s.c_str(), nullptr, 10); }
};
using args = std::vector<arg>;

inline std::string hex(const std::string& s) {
    static const char d[] = "0123456789abcdef";
    std::string r;
    r.reserve(s.size() * 2);
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string hex(const std::vector<char>& v) { return hex(std::string(v.begin(), v.end())); }

// Outcomes: K <payload...> on success, E <message> on a reported failure.
struct out {
    std::string line;
    static std::string f(const std::string& s) { return s.empty() ? "." : hex(s); }
    static std::string ok() { return "K"; }
    static std::string ok(const std::string& a) { return "K " + f(a); }
    static std::string ok(const std::string& a, const std::string& b) { return "K " + f(a) + " " + f(b); }
    static std::string ok(const std::string& a, const std::string& b, const std::string& c) {
        return "K " + f(a) + " " + f(b) + " " + f(c);
    }
    static std::string err(const char* m) { return "E " + f(m ? m : ""); }
};
inline std::string str(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }

using handler = std::function<std::string(const args&)>;
std::map<std::string, handler>& handlers();
struct reg {
    reg(const char* n, handler h) { handlers()[n] = std::move(h); }
};

// one line of a script: the operation and its arguments
inline std::string parse(const std::string& line, std::vector<arg>& as) {
    auto nib = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    auto decode = [&](const std::string& t) {
        arg a;
        if (t == "~") { a.null = true; return a; }
        if (t == ".") return a;
        if (t[0] == '#') { a.s = t.substr(1); return a; } // plain text (numbers, identifiers)
        a.s.reserve(t.size() / 2);
        for (size_t i = 0; i + 1 < t.size(); i += 2) a.s += char(nib(t[i]) << 4 | nib(t[i + 1]));
        return a;
    };
    size_t p = line.find(' ');
    std::string op = line.substr(0, p);
    while (p != std::string::npos) {
        size_t q = line.find(' ', p + 1);
        as.push_back(decode(line.substr(p + 1, q == std::string::npos ? q : q - p - 1)));
        p = q;
    }
    return op;
}

// allocation accounting (see vh_main.cpp)
struct alloc_stats { uint64_t total, peak; };
void alloc_reset();
alloc_stats alloc_get();

} // namespace vh
