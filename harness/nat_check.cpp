// Every way to state a check: a false one throws the message given, a true one has no effect.
#define NAT_MAIN
#include "nat_types.hpp"
#include <eosio/abi.hpp>
#include <eosio/check.hpp>
#include <eosio/from_json.hpp>
#include <eosio/stream.hpp>
using namespace nat;

std::string message() {
    std::string s;
    size_t n = rng.one_in(8) ? 0 : rng.one_in(6) ? rng.below(5000) : rng.below(40);
    for (size_t i = 0; i < n; ++i) s += char(rng.one_in(4) ? rng.next() : 32 + rng.below(95));
    if (n && rng.one_in(10)) s[rng.below(n)] = 0;
    return s;
}
// what() of an exception ends at a NUL
std::string shown(const std::string& m) { return m.c_str(); }

template <typename F>
void states(const char* how, bool pred, const std::string& want, F f) {
    seen(how, hash(want, pred));
    std::string got, kind = "nothing";
    std::exception_ptr kept;
    try { f(); }
    catch (const std::exception& e) { got = e.what(); kind = "an exception"; kept = std::current_exception(); }
    catch (...) { kind = "something that is no std::exception"; }
    if (pred ? kind != "nothing" : kind != "an exception")
        return violate(how, std::string(how) + ": a check that " + (pred ? "holds" : "fails") + " throws " + kind + ", message (hex) " + hex(want).substr(0, 200));
    if (pred) return;
    note("failed checks seen");
    if (got != want) violate(how, std::string(how) + ": the exception says (hex) " + hex(got).substr(0, 200) + " instead of " + hex(want).substr(0, 200));
    try { std::rethrow_exception(kept); }
    catch (const std::exception& e) { if (e.what() != got) violate(how, std::string(how) + ": the message changes after the check is over"); }
}

template <typename E, typename F>
void texts(const char* what, int from, int to, const F& text) {
    for (int i = from; i < to; ++i) {
        seen(what, u64(i));
        std::string t(text(static_cast<E>(i)));
        if (t.empty()) violate(what, std::string(what) + ": error " + std::to_string(i) + " has no text");
        if (i && t == std::string(text(static_cast<E>(0)))) violate(what, std::string(what) + ": error " + std::to_string(i) + " reads like no error");
        std::string said;
        try { eosio::check(false, text(static_cast<E>(i))); } catch (const std::exception& e) { said = e.what(); }
        if (said != t) violate(what, std::string(what) + ": error " + std::to_string(i) + " is reported as something else");
    }
}

void nat::run(u64 cases, bool) {
    for (u64 i = 0; i < cases; ++i) {
        const std::string m = message();
        const bool p = rng.one_in(2);
        auto own = [&] { return std::make_unique<std::string>(m); };  // freed before the exception is read
        states("text view", p, shown(m), [&] { auto s = own(); eosio::check(p, std::string_view(*s)); });
        { std::string part = m + message(); states("view of a part", p, shown(m), [&] { eosio::check(p, std::string_view(part.data(), m.size())); }); }
        states("C text", p, shown(m), [&] { auto s = own(); eosio::check(p, s->c_str()); });
        states("string", p, shown(m), [&] {
            auto s = own();
            const std::string& r = *s;
            try { eosio::check(p, r); } catch (...) { if (r != m) violate("string", "the caller's message changes"); throw; }
            if (r != m) violate("string", "the caller's message changes");
        });
        states("string by value", p, shown(m), [&] { eosio::check(p, std::string(m)); });
        size_t n = rng.below(m.size() + 1);
        states("first characters of C text", p, shown(m.substr(0, n)), [&] { auto s = std::make_unique<char[]>(n + 1); memcpy(s.get(), m.data(), n); s[n] = 'X'; eosio::check(p, s.get(), n); });
        size_t k = rng.below(m.size() + 3);
        states("first characters of a string", p, shown(m.substr(0, k)), [&] { auto s = own(); eosio::check(p, *s, k); });
        uint64_t code = rng.one_in(3) ? rng.below(300) : rng.one_in(5) ? ~0ull - rng.below(3) : rng.next() >> rng.below(64);
        states("code", p, std::to_string(code), [&] { eosio::check(p, code); });
    }
    texts<eosio::from_json_error>("JSON errors", 0, int(eosio::from_json_error::unspecific_syntax_error) + 1, [](auto e) { return eosio::convert_json_error(e); });
    texts<eosio::stream_error>("stream errors", 0, int(eosio::stream_error::json_writer_error) + 1, [](auto e) { return eosio::convert_stream_error(e); });
    texts<eosio::abi_error>("ABI errors", 0, int(eosio::abi_error::bad_abi) + 1, [](auto e) { return eosio::convert_abi_error(e); });
    for (int i = 0; i <= int(rapidjson::kParseErrorUnspecificSyntaxError); ++i) {
        seen("parser errors", u64(i));
        auto t = eosio::convert_error_to_string_view(rapidjson::ParseErrorCode(i));
        if (t.empty() || (i && t == eosio::convert_error_to_string_view(rapidjson::kParseErrorNone))) violate("parser errors", "parser error " + std::to_string(i) + " has no text of its own");
    }
    sample("messages of any bytes and up to 5000 characters whose storage is gone when the exception is read, parts of longer texts, 64-bit codes, every error of the library's four lists");
}
