// C15: the JSON parser, against an independent reference parser.
#include "child.hpp"
#include "gen.hpp"
#include "hl.hpp"

#include "ulight/json.hpp"
#include "ulight/impl/assert.hpp"

#include <algorithm>
#include <bit>
#include <charconv>
#include <clocale>
#include <cstdlib>
#include <memory>

namespace sim {
namespace {

// ---------------------------------------------------------------------------------------- events

enum Kind {
    line_comment, block_comment, literal, escape1, escape2, escape3, number1, number2, null_,
    boolean, push_string, pop_string, push_property, pop_property, push_object, pop_object,
    push_array, pop_array, error_
};
const char* const kind_names[] = { "line_comment", "block_comment", "literal", "escape", "escape(cp)",
                                   "escape(cp, units)", "number", "number(value)", "null", "boolean",
                                   "push_string", "pop_string", "push_property", "pop_property",
                                   "push_object", "pop_object", "push_array", "pop_array", "error" };

struct Event {
    Kind kind {};
    size_t at = 0, line = 0, col = 0;
    string text; // the part of the source
    u64 value = 0; // bits of the number, code point, boolean, error
    string units;
    bool operator==(const Event&) const = default;
    string str() const
    {
        string s = kind_names[kind];
        s += " at " + std::to_string(at) + " (" + std::to_string(line) + ":" + std::to_string(col) + ")";
        if (!text.empty()) {
            s += " \"" + printable(text, 40) + "\"";
        }
        if (kind == number2) {
            char b[40];
            std::snprintf(b, sizeof b, " = %.17g", std::bit_cast<double>(value));
            s += b;
        }
        else if (value || kind == error_) {
            s += " = " + std::to_string(value);
        }
        if (!units.empty()) {
            s += " units " + escape_bytes(units);
        }
        return s;
    }
};

// ------------------------------------------------------------------------------------- reference

using ulight::JSON_Error;
using Reasons = vector<JSON_Error>;

struct Opts {
    bool comments = false, numbers = false;
    int escapes = 0;
    bool separators_end_comments = true; // U+2028 and U+2029 end line comments, as in JavaScript
};

/// What has to come out: all events, and for invalid input what the error may be.
struct Ideal {
    vector<Event> events;
    bool valid = false;
    bool pending = false; // the last event (a literal) may be missing, since the string was cut short
    Reasons reasons;
    vector<size_t> places;
};

class Reference {
    const string& s;
    const Opts o;
    Ideal& out;
    size_t p = 0;
    vector<size_t> line_starts { 0 };

    struct Invalid { };

    [[noreturn]] void fail(Reasons r, vector<size_t> at)
    {
        out.reasons = std::move(r);
        out.places = std::move(at);
        throw Invalid {};
    }
    Event& add(Kind k, size_t at, string text = {})
    {
        Event e;
        e.kind = k;
        locate(at, e.line, e.col);
        e.at = at;
        e.text = std::move(text);
        out.events.push_back(std::move(e));
        return out.events.back();
    }
    bool is(string_view w) const { return string_view(s).substr(p).starts_with(w); }
    bool end() const { return p >= s.size(); }

    void space()
    {
        for (;;) {
            while (!end() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) {
                ++p;
            }
            const size_t at = p;
            if (is("//")) {
                if (!o.comments) {
                    fail({ JSON_Error::comment }, { at });
                }
                while (!end() && s[p] != '\n' && s[p] != '\r'
                       && !(o.separators_end_comments && (is("\u2028") || is("\u2029")))) {
                    ++p;
                }
                add(line_comment, at, s.substr(at, p - at));
            }
            else if (is("/*")) {
                if (!o.comments) {
                    fail({ JSON_Error::comment }, { at });
                }
                const size_t e = s.find("*/", p + 2);
                if (e == string::npos) {
                    // none of the documented reasons says this
                    fail({ JSON_Error::comment, JSON_Error::error }, { at, s.size() });
                }
                p = e + 2;
                add(block_comment, at, s.substr(at, p - at));
            }
            else {
                return;
            }
        }
    }
    void value()
    {
        switch (s[p]) {
        case '"': string_(false); break;
        case '{': object(); break;
        case '[': array(); break;
        case 't': word("true", boolean, 1); break;
        case 'f': word("false", boolean, 0); break;
        case 'n': word("null", null_, 0); break;
        default:
            if (s[p] == '-' || (s[p] >= '0' && s[p] <= '9')) {
                number();
            }
            else {
                fail({ JSON_Error::illegal_character }, { p });
            }
        }
    }
    void word(string_view w, Kind k, u64 v)
    {
        if (is(w)) {
            add(k, p).value = v;
            p += w.size();
            return;
        }
        size_t q = p;
        for (size_t i = 0; q < s.size() && s[q] == w[i]; ++i) {
            ++q;
        }
        fail({ JSON_Error::illegal_character, JSON_Error::error }, { p, q });
    }
    size_t digits()
    {
        const size_t q = p;
        while (!end() && s[p] >= '0' && s[p] <= '9') {
            ++p;
        }
        return p - q;
    }
    void number()
    {
        const size_t at = p;
        bool ok = true;
        if (is("-")) {
            ++p;
        }
        const bool zero = is("0");
        const size_t n = digits();
        ok &= n == 1 || (n > 1 && !zero);
        if (is(".")) {
            ++p;
            ok &= digits() != 0;
        }
        if (is("e") || is("E")) {
            ++p;
            if (is("+") || is("-")) {
                ++p;
            }
            ok &= digits() != 0;
        }
        if (!ok) {
            fail({ JSON_Error::illegal_number }, { at });
        }
        const string text = s.substr(at, p - at);
        if (!o.numbers) {
            add(number1, at, text);
            return;
        }
        double v = 0;
        if (std::from_chars(text.data(), text.data() + text.size(), v).ec != std::errc {}) {
            const int radix = std::exchange(g_locale_radix, 0);
            v = std::strtod(text.c_str(), nullptr); // overflow or underflow
            g_locale_radix = radix;
        }
        add(number2, at, text).value = std::bit_cast<u64>(v);
    }
    void string_(bool property)
    {
        const size_t open = p;
        add(property ? push_property : push_string, p);
        ++p;
        size_t run = p;
        const auto flush = [&] {
            if (p != run) {
                add(literal, run, s.substr(run, p - run));
            }
        };
        for (;;) {
            if (end()) {
                const size_t n = out.events.size();
                flush();
                out.pending = out.events.size() != n;
                fail({ JSON_Error::unterminated_string }, { open, run, p });
            }
            if (s[p] == '"') {
                flush();
                add(property ? pop_property : pop_string, p);
                ++p;
                return;
            }
            if (u8(s[p]) < 0x20) {
                const size_t n = out.events.size();
                flush();
                out.pending = out.events.size() != n;
                fail({ JSON_Error::illegal_character }, { p });
            }
            if (s[p] != '\\') {
                ++p;
                continue;
            }
            flush();
            escape();
            run = p;
        }
    }
    void escape()
    {
        const size_t at = p;
        if (at + 1 >= s.size()) {
            fail({ JSON_Error::illegal_escape, JSON_Error::unterminated_string }, { at });
        }
        static const string_view from = "\"\\/bfnrt", to = "\"\\/\b\f\n\r\t";
        u64 cp = 0;
        if (const size_t i = from.find(s[at + 1]); i != string::npos) {
            cp = u8(to[i]);
            p += 2;
        }
        else if (s[at + 1] == 'u') {
            for (size_t i = 0; i < 4; ++i) {
                if (at + 2 + i >= s.size()) {
                    fail({ JSON_Error::illegal_escape, JSON_Error::unterminated_string }, { at });
                }
                const char c = s[at + 2 + i];
                const bool dec = c >= '0' && c <= '9';
                const bool low = c >= 'a' && c <= 'f';
                const bool up = c >= 'A' && c <= 'F';
                if (!dec && !low && !up) {
                    fail({ JSON_Error::illegal_escape }, { at });
                }
                cp = cp * 16 + u64(dec ? c - '0' : low ? c - 'a' + 10 : c - 'A' + 10);
            }
            p += 6;
        }
        else {
            fail({ JSON_Error::illegal_escape }, { at });
        }
        Event& e = add(o.escapes == 0 ? escape1 : o.escapes == 1 ? escape2 : escape3, at, s.substr(at, p - at));
        if (o.escapes != 0) {
            e.value = cp;
        }
        if (o.escapes == 2) {
            if (cp < 0x80) {
                e.units = char(cp);
            }
            else if (cp < 0x800) {
                e.units = { char(0xC0 | cp >> 6), char(0x80 | (cp & 63)) };
            }
            else {
                e.units = { char(0xE0 | cp >> 12), char(0x80 | (cp >> 6 & 63)), char(0x80 | (cp & 63)) };
            }
        }
    }
    void array()
    {
        add(push_array, p);
        const size_t open = p++;
        const auto check_end = [&] {
            if (end()) {
                fail({ JSON_Error::unterminated_array }, { open, p });
            }
        };
        space();
        check_end();
        if (s[p] != ']') {
            for (;;) {
                value();
                space();
                check_end();
                if (s[p] == ']') {
                    break;
                }
                if (s[p] != ',') {
                    fail({ JSON_Error::illegal_character }, { p });
                }
                ++p;
                space();
                check_end();
            }
        }
        add(pop_array, p++);
    }
    void object()
    {
        add(push_object, p);
        const size_t open = p++;
        const auto check_end = [&](bool half = false) {
            if (end()) {
                Reasons r { JSON_Error::unterminated_object };
                if (half) {
                    r.push_back(JSON_Error::valueless_member);
                }
                fail(r, { open, p });
            }
        };
        space();
        check_end();
        if (s[p] != '}') {
            for (;;) {
                if (s[p] != '"') {
                    fail({ JSON_Error::illegal_character }, { p });
                }
                string_(true);
                space();
                check_end(true);
                if (s[p] != ':') {
                    if (s[p] == '}' || s[p] == ',') {
                        fail({ JSON_Error::valueless_member }, { p });
                    }
                    fail({ JSON_Error::valueless_member, JSON_Error::illegal_character }, { p });
                }
                ++p;
                space();
                check_end(true);
                if (s[p] == '}' || s[p] == ',') {
                    fail({ JSON_Error::valueless_member }, { p });
                }
                value();
                space();
                check_end();
                if (s[p] == '}') {
                    break;
                }
                if (s[p] != ',') {
                    fail({ JSON_Error::illegal_character }, { p });
                }
                ++p;
                space();
                check_end();
            }
        }
        add(pop_object, p++);
    }

public:
    Reference(const string& text, Opts opts, Ideal& ideal)
        : s(text)
        , o(opts)
        , out(ideal)
    {
        for (size_t i = 0; i < s.size(); ++i) {
            if (s[i] == '\n') {
                line_starts.push_back(i + 1);
            }
        }
        try {
            space();
            if (end()) {
                fail({ JSON_Error::error, JSON_Error::illegal_character }, { p });
            }
            value();
            space();
            if (!end()) {
                fail({ JSON_Error::illegal_character }, { p });
            }
            out.valid = true;
        } catch (const Invalid&) {
        }
    }
    void locate(size_t at, size_t& line, size_t& col) const
    {
        const auto it = std::upper_bound(line_starts.begin(), line_starts.end(), at) - 1;
        line = size_t(it - line_starts.begin());
        col = at - *it;
    }
};

// --------------------------------------------------------------------------------------- visitor

struct Visitor final : ulight::JSON_Visitor {
    const char* base;
    size_t size;
    vector<Event> events;
    i64 throw_at = -1;
    int exc = 0;
    u64 thrown = 0;
    bool outside = false; // a text that is no part of the source
    std::function<void()> nested;
    i64 nested_at = -1;

    Visitor(const char* b, size_t n)
        : base(b)
        , size(n)
    {
    }
    void add(Kind k, const ulight::Source_Position& pos, std::u8string_view text = {}, u64 value = 0, std::u8string_view units = {})
    {
        Event e;
        e.kind = k;
        e.at = pos.code_unit;
        e.line = pos.line;
        e.col = pos.line_code_unit;
        e.text.assign(reinterpret_cast<const char*>(text.data()), text.size());
        e.value = value;
        e.units.assign(reinterpret_cast<const char*>(units.data()), units.size());
        if (!text.empty() && reinterpret_cast<const char*>(text.data()) != base + pos.code_unit) {
            outside = true;
        }
        if (g_log) {
            g_log->ev(kind_names[k], e.at, e.line, e.col);
            g_log->ev("value", value, text.size(), units.size());
        }
        events.push_back(std::move(e));
        const i64 n = i64(events.size()) - 1;
        if (n == nested_at && nested) {
            SIM_HIT("nested-parse");
            nested();
        }
        if (n == throw_at) {
            SIM_HIT("visitor-throws");
            ++thrown;
            throw_as(exc, "visitor");
        }
    }
    using P = const ulight::Source_Position&;
    using V = std::u8string_view;
    void line_comment(P p, V t) override { add(sim::line_comment, p, t); }
    void block_comment(P p, V t) override { add(sim::block_comment, p, t); }
    void literal(P p, V t) override { add(sim::literal, p, t); }
    void escape(P p, V t) override { add(escape1, p, t); }
    void escape(P p, V t, char32_t c) override { add(escape2, p, t, c); }
    void escape(P p, V t, char32_t c, V u) override { add(escape3, p, t, c, u); }
    void number(P p, V t) override { add(number1, p, t); }
    void number(P p, V t, double v) override { add(number2, p, t, std::bit_cast<u64>(v)); }
    void null(P p) override { add(null_, p); }
    void boolean(P p, bool b) override { add(sim::boolean, p, {}, b); }
    void push_string(P p) override { add(sim::push_string, p); }
    void pop_string(P p) override { add(sim::pop_string, p); }
    void push_property(P p) override { add(sim::push_property, p); }
    void pop_property(P p) override { add(sim::pop_property, p); }
    void push_object(P p) override { add(sim::push_object, p); }
    void pop_object(P p) override { add(sim::pop_object, p); }
    void push_array(P p) override { add(sim::push_array, p); }
    void pop_array(P p) override { add(sim::pop_array, p); }
    ulight::Error_Reaction error(P p, JSON_Error e) override
    {
        add(error_, p, {}, u64(e));
        return ulight::Error_Reaction::abort;
    }
};

// -------------------------------------------------------------------------------------- workload

struct Gen {
    Rng& r;
    Ctx& c;
    bool comments;
    string out;
    unsigned budget;

    void space()
    {
        static const char* const ws[] = { " ", "\n", "\t", "\r\n", "  ", "\r" };
        while (r.chance(1, 4)) {
            out += ws[r.below(std::size(ws))];
        }
        if (comments && r.chance(1, 10)) {
            if (r.chance(1, 2)) {
                out += "//" + filler() + (r.chance(1, 6) ? "\u2028" : "") + (r.chance(1, 5) ? "\r" : "\n");
            }
            else {
                static const char* const b[] = { "/**/", "/***/", "/*/*/", "/*\n*/", "/* a\r\n b */", "/*\n\n\n*/ ", "/*//*/", "/* * / **/" };
                out += b[r.below(std::size(b))];
                if (r.chance(1, 4)) {
                    out += "/*" + filler() + "*/";
                }
            }
            space();
        }
    }
    string filler()
    {
        string s = random_string(r, c, r.logu(12), r.chance(5, 6));
        std::erase_if(s, [](char ch) { return ch == '\n' || ch == '\r' || ch == '*'; });
        return s;
    }
    void digits(unsigned max)
    {
        for (u64 n = r.logu(max); n--;) {
            out += char('0' + r.below(10));
        }
    }
    void number()
    {
        static const char* const hard[] = {
            "0", "-0", "0.0", "-0.0e-5", "1e308", "1.7976931348623157e308", "1.7976931348623159e308",
            "1e309", "-1e400", "4.9406564584124654e-324", "2.4703282292062327e-324", "1e-400",
            "2.2250738585072014e-308", "2.2250738585072011e-308", "9007199254740993", "9007199254740993.0",
            "0.1", "1E5", "1e+5", "123456789012345678901234567890", "0.1e1", "5e-1",
            "8.5e0", "1.00000000000000011102230246251565404236316680908203125",
            "1.00000000000000011102230246251565404236316680908203124",
            "1.00000000000000011102230246251565404236316680908203126", "1e0000000000000000001", "0e99999",
        };
        if (r.chance(1, 3)) {
            out += hard[r.below(std::size(hard))];
            return;
        }
        if (r.chance(1, 4)) {
            out += '-';
        }
        if (r.chance(1, 4)) {
            out += '0';
        }
        else {
            out += char('1' + r.below(9));
            if (r.chance(1, 2)) {
                digits(25);
            }
        }
        if (r.chance(1, 3)) {
            out += '.';
            digits(r.chance(1, 10) ? 800 : 25);
        }
        if (r.chance(1, 4)) {
            out += r.chance(1, 2) ? 'e' : 'E';
            if (r.chance(1, 2)) {
                out += r.chance(1, 2) ? '+' : '-';
            }
            digits(4);
        }
    }
    void str()
    {
        out += '"';
        for (u64 n = r.logu(8) - 1; n--;) {
            switch (r.below(6)) {
            case 0:
            case 1: {
                string s = random_string(r, c, r.logu(12), r.chance(5, 6));
                std::erase_if(s, [](char ch) { return ch == '"' || ch == '\\' || u8(ch) < 0x20; });
                out += s;
                break;
            }
            case 2: {
                out += '\\';
                out += "\"\\/bfnrt"[r.below(8)];
                break;
            }
            case 3: {
                static const char* const us[] = { "0000", "007F", "0080", "07ff", "0800", "FFFF", "d800", "DFFF", "aBcD", "E9e9", "0041" };
                out += "\\u";
                if (r.chance(1, 2)) {
                    out += us[r.below(std::size(us))];
                }
                else {
                    for (int i = 0; i < 4; ++i) {
                        out += "0123456789abcdefABCDEF"[r.below(22)];
                    }
                }
                break;
            }
            default: {
                static const char* const w[] = { "a", "key", " ", "/", "//", "/*", "\x7f", "é", "\U0001F600", "\u2028", "}", ",", "u0041" };
                out += w[r.below(std::size(w))];
            }
            }
        }
        out += '"';
    }
    void value(unsigned depth)
    {
        if (budget) {
            --budget;
        }
        const u64 k = r.below(budget && depth < 40 ? 10 : 5);
        switch (k) {
        case 0: number(); break;
        case 1: str(); break;
        case 2: out += r.chance(1, 3) ? "true" : r.chance(1, 2) ? "false" : "null"; break;
        case 3: number(); break;
        case 4: str(); break;
        case 5:
        case 6:
        case 7: {
            out += '[';
            space();
            for (u64 n = r.below(4), i = 0; i < n; ++i) {
                if (i) {
                    out += ',';
                    space();
                }
                value(depth + 1);
                space();
            }
            out += ']';
            break;
        }
        default: {
            out += '{';
            space();
            for (u64 n = r.below(4), i = 0; i < n; ++i) {
                if (i) {
                    out += ',';
                    space();
                }
                str();
                space();
                out += ':';
                space();
                value(depth + 1);
                space();
            }
            out += '}';
        }
        }
    }
};

string gen_json(Rng& r, Ctx& c, bool comments)
{
    Gen g { r, c, comments, {}, unsigned(r.logu(60)) };
    if (r.chance(1, 12)) {
        for (u64 n = r.logu(200); n--;) {
            g.out += r.chance(1, 2) ? "[" : "{\"a\":";
        }
    }
    g.space();
    g.value(0);
    g.space();
    return g.out;
}

/// Long documents in which little is inside anything else.
struct Flat {
    const char *before, *unit, *after;
};
constexpr Flat flats[] = {
    { "[", "1,", "1]" }, { "[", "\"a\",\n", "null]" }, { "{", "\"k\":1,", "\"k\":1}" }, { "[", "{},", "0]" },
    { "[", "[1],", "0]" }, { "\"", "\\n", "\"" }, { "\"", "a", "\"" }, { "", "\n", "1" }, { "", " // c\n", "1" },
    { "[", "/* c */1,", "1]" }, { "[", "{\"a\":[true]},", "[]]" }, { "[1", "\t", "]" }, { "/*", "*a", "*/1" }, { "[1.", "0", "]" },
};

void gen_c15(Rng& r, Ctx& c, Scenario& sc)
{
    if (r.chance(1, 1000)) {
        Rec o = rec("flat");
        o.set("which", i64(r.below(std::size(flats))));
        o.set("n", i64(r.range(10'000, 60'000)));
        o.set("comments", 1);
        o.set("numbers", r.chance(2, 3));
        o.set("escapes", i64(r.below(3)));
        o.set("chars", r.chance(1, 4));
        sc.recs.push_back(o);
        return;
    }
    const unsigned n = unsigned(r.logu(3));
    const bool concurrent = n > 1 && r.chance(1, 5);
    for (unsigned d = 0; d < n; ++d) {
        const bool comments = r.chance(1, 2);
        string text;
        if (r.chance(1, 12)) {
            text = gen_text(r, c, comments ? 11 : 10, { .max_len = 1500, .valid_utf8 = r.chance(1, 2), .allow_long = r.chance(1, 4) });
        }
        else {
            text = gen_json(r, c, comments);
        }
        // one wrong thing
        static const char* const wrong[] = { ",", ":", "}", "]", "{", "[", "\"", "/", "//", "/*", "*/", "e", ".", "-", "0", "+", "tru", "nul", "f", "null", "1", "\\", "\\u", "\\u12", "\\x", "\n", "\v", "\f", "\x1f", "\x01", "'", "é", "\xff", " ", "\"a\":", ",}", ",]", "x", "0x10", "01", "1.", "1e", ".5", "Infinity", "\xef\xbb\xbf" };
        if (r.chance(1, 2)) {
            const string w = wrong[r.below(std::size(wrong))];
            const size_t at = r.below(text.size() + 1);
            switch (r.below(5)) {
            case 0: text.insert(at, w); break;
            case 1: text.insert(at, w); break;
            case 2: text.replace(at, r.below(3), w); break;
            case 3: text.erase(at, r.logu(3)); break;
            default: text.resize(at); break;
            }
        }
        Rec s = rec("src");
        s.set("doc", i64(d));
        s.set("lang", comments ? 11 : 10);
        s.set("text", text);
        sc.recs.push_back(s);
        if (r.chance(1, 8)) {
            gen_faults(r, sc, text, i64(d), 1);
        }
        Rec o = rec("parse");
        o.set("doc", i64(d));
        o.set("comments", i64(comments ? !r.chance(1, 6) : r.chance(1, 6)));
        o.set("numbers", r.chance(2, 3));
        o.set("escapes", i64(r.below(3)));
        o.set("locale", i64(r.chance(1, 3) ? r.range(1, 2) : 0));
        o.set("chars", r.chance(1, 4));
        if (r.chance(1, 2)) {
            static const char* const after[] = { "1", "e5", ".5", "0", "x10", "99999999999999999999", "\"", "}", "]", "*/", "\n", "00", "p4", "fff\"", "rue", "ull" };
            o.set("after", string(after[r.below(std::size(after))]));
        }
        if (r.chance(1, 3)) {
            o.set("throw_at", i64(r.logu(r.chance(1, 2) ? 8 : 60) - 1));
            o.set("exc", i64(r.below(exc_count)));
        }
        if (r.chance(1, 12)) {
            o.set("nested_at", i64(r.logu(20) - 1));
            o.set("nested_doc", i64(r.below(n)));
        }
        if (concurrent) {
            o.set("task", i64(d));
            o.set("locale", 0); // belongs to the process
        }
        sc.recs.push_back(o);
    }
    if (concurrent) {
        const unsigned switches = unsigned(r.logu(100));
        const u64 most = r.chance(1, 2) ? 200 : 10000;
        for (unsigned k = 0; k < switches; ++k) {
            Rec s = rec("switch");
            s.set("to", i64(r.below(n)));
            s.set("steps", i64(r.logu(most)));
            sc.recs.push_back(s);
        }
    }
}

// ------------------------------------------------------------------------------------- execution

struct Placed { // the text in memory of exactly the right size, or with other bytes behind it
    std::unique_ptr<char[]> mem;
    size_t n;
    Placed(const string& text, const string& after)
        : mem(new char[text.size() + after.size()])
        , n(text.size())
    {
        std::copy(text.begin(), text.end(), mem.get());
        std::copy(after.begin(), after.end(), mem.get() + n);
    }
};

string doc_text(const Scenario& sc, i64 doc)
{
    for (const auto& s : sc.recs) {
        if (s.kind == "src" && s.i("doc") == doc) {
            return apply_faults(s.s("text"), sc.recs, doc);
        }
    }
    return {};
}

struct Outcome {
    bool result = false;
    bool thrown = false; // the visitor's exception came out
    int thrown_kind = -1;
};

Outcome run_parser(Visitor& v, const Placed& at, const Rec& o)
{
    ulight::JSON_Options opt;
    opt.allow_comments = o.i("comments") != 0;
    opt.parse_numbers = o.i("numbers") != 0;
    opt.escapes = ulight::Escape_Parsing(o.i("escapes") % 3);
    Outcome out;
    const int radix = std::exchange(g_locale_radix, int(o.i("locale") % 3));
    try {
        if (o.i("chars")) {
            out.result = ulight::parse_json(v, string_view(at.mem.get(), at.n), opt);
        }
        else {
            out.result = ulight::parse_json(v, std::u8string_view(reinterpret_cast<const char8_t*>(at.mem.get()), at.n), opt);
        }
    } catch (const ulight::Assertion_Error&) {
        g_locale_radix = radix;
        fatal("assertion", "parse_json: assertion failed: " + g_last_assert);
    } catch (...) {
        out.thrown = true;
        out.thrown_kind = thrown_kind();
    }
    g_locale_radix = radix;
    return out;
}

/// Compares with the reference; empty if it agrees.
string compare(const string& text, const Rec& o, const Visitor& v, const Outcome& out, bool separators, string& cls)
{
    Ideal ideal;
    const Reference ref(text, { o.i("comments") != 0, o.i("numbers") != 0, int(o.i("escapes") % 3), separators }, ideal);
    cls = "wrong-events";
    if (v.outside) {
        return "an event's text is not the part of the source at its position";
    }
    const size_t whole = ideal.events.size();
    size_t must = whole - ideal.pending;
    // the events before the error or the exception
    const auto& got = v.events;
    for (size_t i = 0; i < got.size(); ++i) {
        if (got[i].kind == error_) {
            break;
        }
        if (i >= whole) {
            return "event " + std::to_string(i) + " should not be there: " + got[i].str();
        }
        if (got[i] != ideal.events[i]) {
            cls = got[i].kind != ideal.events[i].kind ? "wrong-events" : got[i].text != ideal.events[i].text ? "wrong-text" : got[i].at != ideal.events[i].at || got[i].line != ideal.events[i].line || got[i].col != ideal.events[i].col ? "wrong-position" : "wrong-value";
            return "event " + std::to_string(i) + " is " + got[i].str() + ", expected " + ideal.events[i].str();
        }
    }
    const auto errors = std::count_if(got.begin(), got.end(), [](const Event& e) { return e.kind == error_; });
    if (!v.thrown && out.thrown) {
        cls = "exception";
        return "an exception came out, but the visitor did not throw";
    }
    if (v.thrown) {
        cls = "exception";
        if (v.thrown > 1 || i64(got.size()) != v.throw_at + 1) {
            return "events after an exception";
        }
        if (!out.thrown || out.thrown_kind != v.exc) {
            return "the visitor's exception was swallowed";
        }
        if (got.back().kind != error_) {
            return {};
        }
    }
    if (errors == 0) {
        cls = "wrong-result";
        if (!ideal.valid) {
            return string(out.result ? "accepted" : "rejected without an error event") + ", but the text is invalid at " + std::to_string(ideal.places[0]);
        }
        if (!out.result) {
            return "a valid text was rejected without an error event";
        }
        cls = "wrong-events";
        if (got.size() != whole) {
            return "event " + std::to_string(got.size()) + " is missing: " + ideal.events[got.size()].str();
        }
        return {};
    }
    const size_t before = size_t(std::find_if(got.begin(), got.end(), [](const Event& e) { return e.kind == error_; }) - got.begin());
    const Event& e = got[before];
    cls = "wrong-error";
    if (ideal.valid) {
        return "a valid text was rejected: " + e.str();
    }
    if (errors != 1 || before + 1 != got.size()) {
        return "events after the error: " + got.back().str();
    }
    if (before < must) {
        return e.str() + " comes too early: next should be " + ideal.events[before].str();
    }
    if (!v.thrown && out.result) {
        return "success after an error event";
    }
    if (std::find(ideal.reasons.begin(), ideal.reasons.end(), JSON_Error(e.value)) == ideal.reasons.end()) {
        return "the reason is wrong: " + e.str() + ", expected " + std::to_string(int(ideal.reasons[0]));
    }
    if (std::find(ideal.places.begin(), ideal.places.end(), e.at) == ideal.places.end()) {
        return "the place is wrong: " + e.str() + ", expected " + std::to_string(ideal.places[0]);
    }
    size_t line, col;
    ref.locate(e.at, line, col);
    if (line != e.line || col != e.col) {
        cls = "wrong-position";
        return e.str() + ", expected line " + std::to_string(line) + ":" + std::to_string(col);
    }
    return {};
}

void check(const string& text, const Rec& o, const Visitor& v, const Outcome& out, const string& what, Verdict& verdict)
{
    string cls, cls2;
    const string d = compare(text, o, v, out, true, cls);
    if (!d.empty() && !compare(text, o, v, out, false, cls2).empty()) {
        verdict.fail(cls, what + d);
    }
}

void one_parse(const Scenario& sc, const Rec& o, const string& what, Verdict& v, bool alone)
{
    const string text = doc_text(sc, o.i("doc"));
    const Placed at(text, o.s("after"));
    Visitor vis(at.mem.get(), at.n);
    vis.throw_at = o.i("throw_at", -1);
    vis.exc = int(unsigned(o.i("exc")) % exc_count);
    if (o.has("nested_at")) {
        vis.nested_at = o.i("nested_at");
        vis.nested = [&] {
            Rec inner = o;
            inner.set("doc", o.i("nested_doc"));
            const string t2 = doc_text(sc, o.i("nested_doc"));
            const Placed at2(t2, {});
            Visitor v2(at2.mem.get(), at2.n);
            const Outcome out2 = run_parser(v2, at2, inner);
            check(t2, inner, v2, out2, what + "nested: ", v);
        };
    }
    if (o.i("locale")) {
        SIM_HIT("locale-with-another-radix");
    }
    if (!o.s("after").empty()) {
        SIM_HIT("other-bytes-after-the-text");
    }
    if (alone) {
        Clock::arm(2'000'000 + 4000 * text.size());
    }
    const Outcome out = run_parser(vis, at, o);
    if (alone) {
        Clock::disarm();
    }
    if (g_log) {
        g_log->ev("result", out.result, out.thrown);
    }
    for (const auto& e : vis.events) {
        if (e.kind == error_) {
            static const char* const names[] = { "probe:error:error", "probe:error:comment", "probe:error:illegal_character", "probe:error:illegal_escape", "probe:error:illegal_number", "probe:error:unterminated_string", "probe:error:unterminated_object", "probe:error:unterminated_array", "probe:error:valueless_member" };
            SIM_HIT(names[std::min<u64>(e.value, 8)]);
        }
    }
    if (out.result) {
        SIM_HIT("probe:accepted");
    }
    check(text, o, vis, out, what, v);
    if (v.ok && out.thrown) {
        // nothing is left behind
        Visitor again(at.mem.get(), at.n);
        const Outcome out2 = run_parser(again, at, o);
        check(text, o, again, out2, what + "again: ", v);
    }
}

void exec_c15(const Scenario& sc, Verdict& v)
{
    size_t number = 0;
    std::map<i64, vector<const Rec*>> by_task;
    for (const auto& o : sc.recs) {
        if (o.kind == "nest" && v.ok) {
            string text;
            for (i64 k = 0; k < o.i("n"); ++k) {
                text += o.s("open");
            }
            SIM_HIT("probe:deep-nesting-on-an-ordinary-stack");
            on_ordinary_stack([&](string&) {
                const Placed at(text, {});
                Visitor vis(at.mem.get(), at.n);
                const Outcome out = run_parser(vis, at, o);
                if (out.result || out.thrown) {
                    fatal("wrong-result", "a document that ends inside its containers was accepted");
                }
            });
            continue;
        }
        if (o.kind == "flat" && v.ok) {
            const Flat& f = flats[size_t(o.i("which")) % std::size(flats)];
            string text = f.before;
            for (i64 k = 0; k < o.i("n"); ++k) {
                text += f.unit;
            }
            text += f.after;
            SIM_HIT("probe:long-flat-text-on-a-small-stack");
            on_ordinary_stack(
                [&](string&) {
                    const Placed at(text, {});
                    Visitor vis(at.mem.get(), at.n);
                    const Outcome out = run_parser(vis, at, o);
                    if (o.i("comments") && (!out.result || out.thrown)) {
                        fatal("wrong-result", "a long valid document was not accepted");
                    }
                },
                size_t(2) << 20
            );
            continue;
        }
        if (o.kind != "parse" || !v.ok) {
            continue;
        }
        by_task[o.i("task")].push_back(&o);
    }
    if (by_task.size() <= 1) {
        for (const auto& [t, os] : by_task) {
            for (const Rec* const o : os) {
                if (v.ok) {
                    one_parse(sc, *o, "parse " + std::to_string(number++) + ": ", v, true);
                }
            }
        }
        return;
    }
    // At the same time, on simulated threads.
    SIM_HIT("probe:concurrent-parses");
    Thread_Sim ts;
    u64 limit = 0;
    std::map<i64, Verdict> verdicts;
    for (const auto& [t, os] : by_task) {
        Verdict& mine = verdicts[t];
        for (const Rec* const o : os) {
            limit += 3 * (2'000'000 + 4000 * doc_text(sc, o->i("doc")).size());
        }
        ts.tasks.push_back([&sc, &os, &mine, t] {
            size_t k = 0;
            for (const Rec* const o : os) {
                if (mine.ok) {
                    one_parse(sc, *o, "thread " + std::to_string(t) + ", parse " + std::to_string(k++) + ": ", mine, false);
                }
            }
        });
    }
    for (const auto& r : sc.recs) {
        if (r.kind == "switch") {
            ts.schedule.push_back({ u32(r.i("to")), u64(std::max<i64>(1, r.i("steps"))) });
        }
    }
    Clock::arm(limit);
    ts.run();
    Clock::disarm();
    g_stats.hit("schedule:switches-between-tasks", ts.switches > ts.tasks.size() ? ts.switches - ts.tasks.size() : 0);
    g_stats.hit("schedule:preemptions-inside-the-library", ts.inner_switches);
    for (const auto& [t, mine] : verdicts) {
        if (v.ok && !mine.ok) {
            v = mine;
        }
    }
}
const Reg c15 { { "C15", gen_c15, exec_c15, "text" } };

} // namespace
} // namespace sim
