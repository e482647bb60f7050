// JSON documents taken apart token by token: every token in order, each taken exactly once, wrong requests refused without effect.
#define NAT_MAIN
#include "nat.hpp"
#include <eosio/from_json.hpp>
using namespace nat;
using T = eosio::json_token_type;

struct tok { T type; std::string text; bool b = false; size_t after = 0; }; // after: index of the token following the value that starts here

const char* name(T t) {
    switch (t) {
    case T::type_unread: return "none"; case T::type_null: return "null"; case T::type_bool: return "bool"; case T::type_string: return "string or number";
    case T::type_start_object: return "{"; case T::type_key: return "key"; case T::type_end_object: return "}"; case T::type_start_array: return "["; default: return "]";
    }
}

struct doc {
    std::string text;
    std::vector<tok> toks;
    size_t root_end = 0;
    void space() { while (rng.one_in(4)) text += " \t\r\n"[rng.below(4)]; }
    static void utf8(u64 c, std::string& s) {
        if (c < 0x80) s += char(c);
        else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
        else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    }
    void escape(u64 c) { char b[8]; snprintf(b, sizeof b, rng.one_in(2) ? "\\u%04x" : "\\u%04X", unsigned(c)); text += b; }
    std::string string() {
        std::string v;
        text += '"';
        for (u64 n = rng.one_in(4) ? 0 : rng.one_in(40) ? rng.below(3000) : rng.below(12); n--;) {
            u64 c;
            switch (rng.below(7)) {
            case 0: c = rng.below(0x20); break;
            case 1: c = "\"\\/\b\f\n\r\t"[rng.below(8)]; break;
            case 2: c = 0x80 + rng.below(0x780); break;
            case 3: do c = 0x800 + rng.below(0xf800); while (c >= 0xd800 && c < 0xe000); break;
            case 4: c = 0x10000 + rng.below(0x100000); break;
            default: c = 0x20 + rng.below(0x60);
            }
            utf8(c, v);
            const char *from = "\"\\/\b\f\n\r\t", *to = "\"\\/bfnrt", *at = c && c < 0x80 ? strchr(from, int(c)) : nullptr;
            if (at && rng.one_in(2)) { text += '\\'; text += to[at - from]; }
            else if (c < 0x20 || c == '"' || c == '\\' || rng.one_in(5)) { if (c < 0x10000) escape(c); else { escape(0xd800 + ((c - 0x10000) >> 10)); escape(0xdc00 + ((c - 0x10000) & 0x3ff)); } }
            else utf8(c, text);
        }
        text += '"';
        return v;
    }
    std::string digits(u64 n) { std::string s; while (n--) s += char('0' + rng.below(10)); return s; }
    std::string number() {
        std::string s = rng.one_in(3) ? "-" : "";
        s += rng.one_in(4) ? "0" : char('1' + rng.below(9)) + digits(rng.one_in(9) ? rng.below(200) : rng.below(20));
        if (rng.one_in(3)) s += "." + digits(1 + rng.below(10));
        if (rng.one_in(5)) { s += rng.one_in(2) ? "e" : "E"; s += rng.one_in(2) ? "" : rng.one_in(2) ? "+" : "-"; s += digits(1 + rng.below(2)); }
        return s;
    }
    void value(int depth) {
        space();
        size_t at = toks.size();
        switch (rng.below(depth > 0 ? 8 : 4)) {
        case 0: text += "null"; toks.push_back({T::type_null, ""}); break;
        case 1: { bool b = rng.one_in(2); text += b ? "true" : "false"; toks.push_back({T::type_bool, "", b}); break; }
        case 2: { auto s = string(); toks.push_back({T::type_string, s}); break; }
        case 3: { auto s = number(); text += s; toks.push_back({T::type_string, s}); break; }
        case 4: case 5: {
            text += '['; toks.push_back({T::type_start_array, ""});
            for (u64 i = 0, n = rng.below(6); i < n; ++i) { if (i) text += ','; value(depth - 1); }
            space();
            text += ']'; toks.push_back({T::type_end_array, ""});
            break;
        }
        default: {
            text += '{'; toks.push_back({T::type_start_object, ""});
            for (u64 i = 0, n = rng.below(6); i < n; ++i) {
                if (i) text += ',';
                space();
                auto s = string();
                toks.push_back({T::type_key, s});
                space();
                text += ':';
                value(depth - 1);
            }
            space();
            text += '}'; toks.push_back({T::type_end_object, ""});
        }
        }
        toks[at].after = toks.size();
        space();
    }
};

struct walker {
    const doc& d;
    eosio::json_token_stream s;
    size_t at = 0;
    walker(const doc& d, char* p) : d(d), s(p) {}
    std::string where() { return "document (hex) " + hex(d.text).substr(0, 600) + ", token " + std::to_string(at) + ": "; }
    void wrong(const std::string& what) { violate("token " + what.substr(0, 30), where() + what); }

    // a request for something else than what comes next: false or an error, and nothing is taken
    bool ask_wrongly() { // false if something was wrong
        const T next = at < d.toks.size() ? d.toks[at].type : T::type_unread;
        bool taken = false, threw = false;
        const char* what = "";
        auto throwing = [&](const char* w, T t, auto f) { if (t == next) return; what = w; try { f(); taken = true; } catch (const std::exception&) { threw = true; } };
        auto asking = [&](const char* w, T t, auto f) { if (t == next) return; what = w; taken = bool(f()); };
        switch (rng.below(14)) {
        case 0: asking("get_null_pred", T::type_null, [&] { return s.get_null_pred(); }); break;
        case 1: throwing("get_null", T::type_null, [&] { s.get_null(); }); break;
        case 2: throwing("get_bool", T::type_bool, [&] { s.get_bool(); }); break;
        case 3: throwing("get_string", T::type_string, [&] { s.get_string(); }); break;
        case 4: throwing("get_start_object", T::type_start_object, [&] { s.get_start_object(); }); break;
        case 5: throwing("get_key", T::type_key, [&] { s.get_key(); }); break;
        case 6: asking("maybe_get_key", T::type_key, [&] { return s.maybe_get_key().has_value(); }); break;
        case 7: asking("get_end_object_pred", T::type_end_object, [&] { return s.get_end_object_pred(); }); break;
        case 8: throwing("get_end_object", T::type_end_object, [&] { s.get_end_object(); }); break;
        case 9: asking("get_start_array_pred", T::type_start_array, [&] { return s.get_start_array_pred(); }); break;
        case 10: throwing("get_start_array", T::type_start_array, [&] { s.get_start_array(); }); break;
        case 11: asking("get_end_array_pred", T::type_end_array, [&] { return s.get_end_array_pred(); }); break;
        case 12: throwing("get_end_array", T::type_end_array, [&] { s.get_end_array(); }); break;
        default: throwing("get_end", T::type_unread, [&] { s.get_end(); });
        }
        if (!*what) return true;
        seen("wrong requests", hash(what, strlen(what), u64(next)));
        if (taken) wrong(std::string(what) + " succeeds although " + name(next) + " is next");
        if (threw) note("wrong requests answered by an error");
        return !taken;
    }
    bool same(std::string_view got, const std::string& want) {
        if (got == want) return true;
        wrong("text is (hex) " + hex(std::string(got)).substr(0, 200) + ", should be " + hex(want).substr(0, 200));
        return false;
    }
    // false if something was wrong
    bool step() {
        const tok& t = d.toks[at];
        for (u64 k = rng.one_in(2) ? 0 : rng.below(4); k--;) if (!ask_wrongly()) return false;
        if (rng.one_in(2)) { // what was refused must still be there
            const eosio::json_token& p = s.peek_token();
            if (p.type != t.type) { wrong(std::string("next is ") + name(p.type) + " instead of " + name(t.type)); return false; }
        }
        if (rng.one_in(3)) {
            const eosio::json_token &p = s.peek_token(), &q = s.peek_token();
            if (p.type != t.type || q.type != t.type) { wrong(std::string("peeking shows ") + name(p.type) + " instead of " + name(t.type)); return false; }
            if (t.type == T::type_string && !same(p.value_string, t.text)) return false;
            if (t.type == T::type_key && !same(p.key, t.text)) return false;
            if (t.type == T::type_bool && p.value_bool != t.b) { wrong("peeking shows another bool"); return false; }
        }
        if (t.after && rng.one_in(12)) { eosio::from_json_skip_value(s); at = t.after; seen("values skipped", hash(d.text, at)); return true; }
        seen(name(t.type), hash(t.text, t.b));
        bool ok = true;
        switch (t.type) {
        case T::type_null: if (rng.one_in(2)) s.get_null(); else ok = s.get_null_pred(); break;
        case T::type_bool: ok = s.get_bool() == t.b; break;
        case T::type_string: ok = same(s.get_string(), t.text); break;
        case T::type_start_object: s.get_start_object(); break;
        case T::type_key: if (rng.one_in(2)) ok = same(s.get_key(), t.text); else { auto k = s.maybe_get_key(); ok = k && same(*k, t.text); } break;
        case T::type_end_object: if (rng.one_in(2)) s.get_end_object(); else ok = s.get_end_object_pred(); break;
        case T::type_start_array: if (rng.one_in(2)) s.get_start_array(); else ok = s.get_start_array_pred(); break;
        default: if (rng.one_in(2)) s.get_end_array(); else ok = s.get_end_array_pred();
        }
        if (!ok) { wrong(std::string("taking ") + name(t.type) + " fails or gives another value"); return false; }
        ++at;
        if (at < d.toks.size() && s.complete()) { wrong("the document counts as complete before its end"); return false; }
        return true;
    }
};

// takes every token there is, whatever it is
std::optional<std::string> drain(const std::string& text, size_t& n) {
    buffer b(text + std::string(1, 0));
    return reports([&] {
        eosio::json_token_stream s(b.begin());
        for (n = 0; n < 100000; ++n) {
            s.peek_token();
            s.eat_token();
            if (s.complete()) { s.get_end(); return; }
        }
    });
}

void nat::run(u64 cases, bool thorough) {
    for (u64 i = 0; i < cases; ++i) {
        doc d;
        d.value(int(rng.below(6)));
        if (d.text.size() > 20000) continue;
        buffer b(d.text + std::string(1, 0));
        walker w(d, b.begin());
        try {
            while (w.at < d.toks.size() && w.step()) {}
            if (w.at == d.toks.size()) {
                if (!w.s.complete()) w.wrong("the document is not complete after its last token");
                w.s.get_end();
                note("documents taken apart");
            }
        } catch (const std::exception& e) { w.wrong(std::string("refused: ") + e.what()); }
        // damaged documents: cut short, or followed by something
        size_t first = d.text.find_first_not_of(" \t\r\n"), last = d.text.find_last_not_of(" \t\r\n");
        bool number = d.text[first] == '-' || isdigit(d.text[first]);
        for (int k = 0; k < 3 && !number; ++k) {
            std::string cut = d.text.substr(0, rng.below(last + 1));
            size_t n;
            seen("cut short", hash(cut));
            if (!drain(cut, n)) violate("cut accepted", "the document (hex) " + hex(cut) + " is cut short but read to its end");
        }
        static const std::string more[] = {"x", ",", "]", "}", "null", "\"", "1", "{}", "[]", ":", "\x01", "\xff"};
        std::string tail = more[rng.below(12)];
        if (number && tail == "1") tail = " 1";
        size_t n;
        seen("followed by something", hash(d.text + tail));
        if (!drain(d.text + tail, n)) violate("tail accepted", "the document (hex) " + hex(d.text + tail) + " is read to its end");
        // a character of the structure damaged
        std::string bad = d.text;
        size_t p = rng.below(bad.size());
        if (strchr("{}[]:,", bad[p]) && bad[p]) {
            // only outside strings
            bool inside = false;
            for (size_t q = 0; q < p; ++q) { if (bad[q] == '\\') ++q; else if (bad[q] == '"') inside = !inside; }
            if (!inside) {
                const char* other = bad[p] == ',' ? ":;]}{[" : bad[p] == ':' ? ",;]}{[" : bad[p] == '{' ? "[(:,]}" : bad[p] == '[' ? "{(:,}]" : bad[p] == ']' ? "}):,[{" : "]):,[{";
                bad[p] = other[rng.below(6)];
                seen("damaged structure", hash(bad));
                if (!drain(bad, n)) violate("damage accepted", "the document (hex) " + hex(bad) + " is not well formed but read to its end");
            }
        }
    }
    // values nested around the limits of small counters, skipped as a whole
    for (u64 k = 0; k < (thorough ? 4000 : 300); ++k) {
        static const size_t around[] = {1, 2, 63, 127, 128, 255, 256, 257, 511, 512, 1024, 32768, 65535, 65536, 65537};
        size_t n = rng.one_in(2) ? around[rng.below(k % 10 ? 11 : 15)] : 1 + rng.below(600);
        std::string open, close;
        for (size_t j = 0; j < n; ++j) {
            bool list = rng.one_in(2);
            open += list ? (rng.one_in(5) ? "[[],{},1," : "[") : (rng.one_in(5) ? "{\"a\":[null,{}],\"b\":" : "{\"k\":");
            close.insert(close.begin(), list ? ']' : '}');
        }
        std::string t = "[" + open + "\"inner\"" + close + ",\"after\"]";
        seen("deep values skipped", hash(t));
        buffer b(t + std::string(1, 0));
        std::string what = "skipping a value nested " + std::to_string(n) + " deep: ";
        auto e = reports([&] {
            eosio::json_token_stream s(b.begin());
            s.get_start_array();
            eosio::from_json_skip_value(s);
            const eosio::json_token& t = s.peek_token();
            if (t.type != T::type_string || t.value_string != "after") { violate("deep skip", what + "next is " + name(t.type)); return; }
            s.eat_token();
            s.get_end_array();
            s.get_end();
        });
        if (e) violate("deep skip", what + *e);
    }
    if (thorough || rng.one_in(2)) {
        // depth does not matter to the token stream
        for (size_t n : {1000u, 100000u}) {
            std::string t(n, '['); t += std::string(n, ']');
            size_t k;
            auto e = drain(t, k);
            seen("deep", n);
            if (n <= 40000 && e) violate("deep", "a document of " + std::to_string(n) + " nested lists is refused: " + *e);
        }
    }
    sample("documents of nested lists and objects with all escapes, surrogate pairs, white space and numbers of up to 200 digits, walked with random requests, skipped values, cut short, followed by more text, with a changed bracket");
}
