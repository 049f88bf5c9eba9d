#include "gen.hpp"

#include <cctype>
#include "hl.hpp"

#include <algorithm>
#include <cstdio>
#include <dirent.h>

namespace sim {

static bool read_all(const string& path, string& out)
{
    FILE* f = std::fopen(path.c_str(), "rb");
    if (!f) {
        return false;
    }
    char buf[65536];
    size_t n;
    while ((n = std::fread(buf, 1, sizeof buf, f)) > 0) {
        out.append(buf, n);
    }
    std::fclose(f);
    return true;
}

bool Ctx::load(const string& corpus_dir, const string& dict_file)
{
    // one pack per language: "<id>.pack" and "<id>.snip", sequences of <length>\n<bytes>
    const auto load_pack = [&](const string& path, vector<string>& out) {
        string data;
        if (!read_all(path, data)) {
            return;
        }
        size_t p = 0;
        while (p < data.size()) {
            const size_t e = data.find('\n', p);
            if (e == string::npos) {
                break;
            }
            const size_t n = size_t(std::strtoull(data.c_str() + p, nullptr, 10));
            if (e + 1 + n > data.size()) {
                break;
            }
            out.push_back(data.substr(e + 1, n));
            p = e + 1 + n;
        }
    };
    for (int l = 1; l < lang_count; ++l) {
        load_pack(corpus_dir + "/" + std::to_string(l) + ".pack", docs[size_t(l)]);
        load_pack(corpus_dir + "/" + std::to_string(l) + ".grown", docs[size_t(l)]);
        load_pack(corpus_dir + "/" + std::to_string(l) + ".snip", snips[size_t(l)]);
        load_pack(corpus_dir + "/" + std::to_string(l) + ".flat", flats[size_t(l)]);
    }
    string d;
    if (read_all(dict_file, d)) {
        // lines: <lang id or 0 for all, or "len"> <escaped string or number>
        size_t p = 0;
        while (p < d.size()) {
            size_t e = d.find('\n', p);
            if (e == string::npos) {
                e = d.size();
            }
            const string line = d.substr(p, e - p);
            p = e + 1;
            const size_t sp = line.find(' ');
            if (sp == string::npos) {
                continue;
            }
            if (line.compare(0, sp, "len") == 0) {
                lengths.push_back(std::strtoull(line.c_str() + sp + 1, nullptr, 10));
                continue;
            }
            Scenario tmp;
            if (!Scenario::parse("scenario X seed=0\nw t=" + line.substr(sp + 1) + "\n", tmp)
                || tmp.recs.empty()) {
                continue;
            }
            const string w = tmp.recs[0].s("t");
            const int l = std::atoi(line.c_str());
            if (l == 0) {
                common.push_back(w);
            }
            else if (l < lang_count) {
                dict[size_t(l)].push_back(w);
            }
        }
    }
    for (size_t l = 1; l < size_t(lang_count); ++l) {
        if (snips[l].empty()) {
            snips[l].push_back("x");
        }
    }
    if (common.empty()) {
        common.push_back("x");
    }
    if (lengths.empty()) {
        lengths.push_back(1);
    }
    for (auto& v : dict) {
        if (v.empty()) {
            v = common;
        }
    }
    return true;
}

bool Ctx::feedback()
{
    bool fresh = false;
    for (size_t i = 0; i < cov_n; ++i) {
        const u32 s = cov_touched[i];
        const u8 c = cov_map[s];
        const u8 bucket = u8(
            c <= 3 ? 1u << (c - 1) : c <= 7 ? 8u : c <= 15 ? 16u : c <= 31 ? 32u : c <= 127 ? 64u : 128u
        );
        if (!(virgin[s] & bucket)) {
            virgin[s] |= bucket;
            fresh = true;
        }
    }
    return fresh;
}

int gen_lang(Rng& r)
{
    static const int weighted[] = {
        8, 6, 1, 2, 5, 9, 17, 4, 24, 7, 10, 11, 19, 15, 22, 3, 23, 16, 18, 21, 14, 13, 20, 12, 25,
        // the elaborate ones again
        1, 2, 4, 4, 7, 7, 23, 23, 25, 25, 12, 21, 18, 3, 16, 8, 5, 19, 24, 22, 17
    };
    return weighted[r.below(sizeof weighted / sizeof *weighted)];
}

static const char* const specials_valid[] = {
    "\n", "\r\n", "\r", "\t", " ", "\v", "\f", "\\", "\"", "'", "`", "<", ">", "&", "{", "}", "(", ")",
    "[", "]", "/*", "*/", "//", "#", "-", "--", "---", "...", "=", ";", ":", "::", ",", ".", "/", "</",
    "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "$", "${", "@", "!", "%", "^", "~", "|", "?",
    "*", "**", "_", "__", "+", "0", "1", "9", "0x", "0b", "1e", "1e+", "1.", "a", "Z", "\\u", "\\x",
    "\\N{", "\\u{", "&#", "&#x", "&amp;", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
    "\xcc\x81", "\xef\xbb\xbf", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\xa9", "\xc2\xa0", "\xce\xb1",
    "\xe4\xb8\xad", "\xf0\x9d\x94\xb8", "\xef\xbf\xbd", "\xed\x9f\xbf", "\xee\x80\x80",
    "\xf4\x8f\xbf\xbf", "\x7f", "\x01", "\x1b", "<script>", "</script>", "<style>", "</style>",
    "<title>", "<textarea>", "\n\n", "    ", "  ", "\n  ", "- ", "> ", "| ", "```", "~~~", "$$"
};
static const string nul(1, '\0');

static string special(Rng& r, bool valid)
{
    if (r.chance(1, 60)) {
        return nul;
    }
    if (!valid && r.chance(1, 3)) {
        static const char* const bad[] = { "\x80", "\xbf", "\xc0", "\xc0\x80", "\xc3", "\xe2", "\xe2\x82",
                                           "\xed\xa0\x80", "\xf0", "\xf0\x9f", "\xf0\x9f\x98", "\xf5",
                                           "\xff", "\xfe", "\xf8\x88\x80\x80\x80", "\xf4\x90\x80\x80" };
        return bad[r.below(sizeof bad / sizeof *bad)];
    }
    return specials_valid[r.below(sizeof specials_valid / sizeof *specials_valid)];
}

static const string& word(Rng& r, Ctx& c, int lang)
{
    return r.chance(5, 6) ? r.pick(c.dict[size_t(lang)]) : r.pick(c.common);
}

static size_t some_len(Rng& r, Ctx& c, size_t max)
{
    if (max == 0) {
        return 0;
    }
    if (r.chance(1, 6)) {
        const u64 v = r.pick(c.lengths) + r.below(3);
        const size_t x = size_t(v > 0 ? v - 1 : 0);
        return x <= max ? x : r.logu(max);
    }
    return size_t(r.logu(max));
}

static const string& base_doc(Rng& r, Ctx& c, int lang)
{
    static const string empty;
    const auto& pool = c.pool[size_t(lang)];
    const auto& docs = c.docs[size_t(lang)];
    if (!pool.empty() && r.chance(1, 2)) {
        // recent additions first
        const size_t n = pool.size();
        return r.chance(1, 2) && n > 16 ? pool[n - 1 - r.below(16)] : pool[r.below(n)];
    }
    return docs.empty() ? empty : docs[r.below(docs.size())];
}

static string snippet(Rng& r, const string& s, size_t max)
{
    if (s.empty()) {
        return {};
    }
    const size_t at = r.below(s.size());
    return s.substr(at, size_t(r.logu(std::max<size_t>(1, std::min(max, s.size() - at)))));
}

string to_valid_utf8(string_view s)
{
    string out;
    out.reserve(s.size());
    size_t i = 0;
    while (i < s.size()) {
        const u8 c = u8(s[i]);
        if (c < 0x80) {
            out += char(c);
            ++i;
            continue;
        }
        size_t n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2;
        if (i + n <= s.size() && utf8_valid(s.substr(i, n))) {
            out.append(s.substr(i, n));
            i += n;
        }
        else {
            ++i;
        }
    }
    return out;
}

/// Makes one of the words in the text almost, but not quite, what it was.
static void near_miss(Rng& r, string& s)
{
    if (s.empty()) {
        return;
    }
    const auto is_word = [](char ch) {
        return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_';
    };
    size_t at = r.below(s.size());
    size_t e = at;
    while (e < s.size() && is_word(s[e])) {
        ++e;
    }
    size_t b = at;
    while (b > 0 && is_word(s[b - 1])) {
        --b;
    }
    switch (r.below(8)) {
    case 0:
    case 1: s.insert(e, 1, "xXz0_-=/ \n\\"[r.below(11)]); break;
    case 2: s.insert(b, 1, "xXz0_-=/ \n\\"[r.below(11)]); break;
    case 3:
        if (e > b) {
            s.erase(e - 1, 1);
        }
        break;
    case 4: s.erase(at, 1); break;
    case 5: s.insert(at, 1, s[at]); break;
    case 6:
        for (size_t i = b; i < e; ++i) {
            if ((s[i] | 0x20) >= 'a' && (s[i] | 0x20) <= 'z') {
                s[i] = char(s[i] ^ 0x20);
            }
        }
        break;
    case 7:
        if (s.size() > 1) {
            const size_t i = r.below(s.size() - 1);
            std::swap(s[i], s[i + 1]);
        }
        break;
    }
}

string mutate(Rng& r, Ctx& c, int lang, string s, const Text_Opts& o)
{
    const unsigned n = unsigned(r.logu(8));
    for (unsigned k = 0; k < n; ++k) {
        const size_t at = r.below(s.size() + 1);
        switch (r.below(17)) {
        case 15: near_miss(r, s); break;
        case 16: s.insert(at, r.pick(c.snips[size_t(lang)])); break;
        case 0: s.insert(at, word(r, c, lang)); break;
        case 1: s.insert(at, special(r, o.valid_utf8)); break;
        case 2: s.erase(at, some_len(r, c, std::max<size_t>(1, s.size() - at))); break;
        case 3: s.resize(at); break; // cut off
        case 4: { // duplicate a piece, possibly many times
            const string piece = s.substr(at, some_len(r, c, 40));
            const size_t times
                = r.chance(1, 4) ? some_len(r, c, o.max_len / std::max<size_t>(1, piece.size())) : 1;
            string rep;
            for (size_t i = 0; i < times && rep.size() < o.max_len; ++i) {
                rep += piece;
            }
            s.insert(at, rep);
            break;
        }
        case 5: { // splice from another document
            const string& other = base_doc(r, c, r.chance(5, 6) ? lang : gen_lang(r));
            s.insert(at, snippet(r, other, 200));
            break;
        }
        case 6: // overwrite with a word
        {
            const string w = r.chance(1, 2) ? word(r, c, lang) : special(r, o.valid_utf8);
            s.replace(at, std::min(w.size(), s.size() - at), w);
            break;
        }
        case 7: { // head of one, tail of another
            const string& other = base_doc(r, c, lang);
            if (!other.empty()) {
                s = s.substr(0, at) + other.substr(r.below(other.size()));
            }
            break;
        }
        case 8: { // a run of one special
            const string sp = r.chance(1, 2) ? special(r, o.valid_utf8) : word(r, c, lang);
            const size_t times = some_len(r, c, std::max<size_t>(1, std::min<size_t>(o.max_len, 600)));
            string rep;
            for (size_t i = 0; i < times && rep.size() < o.max_len; ++i) {
                rep += sp;
            }
            s.insert(at, rep);
            break;
        }
        case 9: // change one byte
            if (at < s.size()) {
                if (o.valid_utf8) {
                    s[at] = char(0x20 + r.below(0x5f));
                }
                else {
                    s[at] = char(r.below(256));
                }
            }
            break;
        case 10: // change case
            if (at < s.size()) {
                const size_t len = std::min(some_len(r, c, 12), s.size() - at);
                for (size_t i = 0; i < len; ++i) {
                    char& ch = s[at + i];
                    if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')) {
                        ch = char(ch ^ 0x20);
                    }
                }
            }
            break;
        case 11: { // move a piece
            const string piece = s.substr(at, some_len(r, c, 60));
            s.erase(at, piece.size());
            s.insert(r.below(s.size() + 1), piece);
            break;
        }
        case 12: { // identifiers and numbers of interesting lengths
            const size_t len = some_len(r, c, 300);
            static const char alpha[] = "abcXYZ019_";
            string w;
            const bool digits = r.chance(1, 3);
            for (size_t i = 0; i < len; ++i) {
                w += digits ? char('0' + r.below(10)) : alpha[r.below(10)];
            }
            s.insert(at, w);
            break;
        }
        case 13: { // words in a row
            const unsigned m = unsigned(r.range(2, 6));
            string w;
            for (unsigned i = 0; i < m; ++i) {
                w += r.chance(2, 3) ? word(r, c, lang) : special(r, o.valid_utf8);
                if (r.chance(1, 3)) {
                    w += ' ';
                }
            }
            s.insert(at, w);
            break;
        }
        case 14: // drop the last or first few bytes
            if (!s.empty()) {
                if (r.chance(1, 2)) {
                    s.resize(s.size() - std::min(s.size(), size_t(r.range(1, 4))));
                }
                else {
                    s.erase(0, size_t(r.range(1, 4)));
                }
            }
            break;
        }
        if (s.size() > o.max_len * 2) {
            s.resize(o.max_len);
        }
    }
    return s;
}

/// A few constructs, next to or inside of each other, almost right, cut off.
static string gen_constructs(Rng& r, Ctx& c, int lang, const Text_Opts& o)
{
    const auto piece = [&]() -> string {
        const int l = r.chance(11, 12) ? lang : gen_lang(r);
        const auto& v = c.snips[size_t(l)];
        return v.empty() || r.chance(1, 10) ? word(r, c, lang) : v[r.below(v.size())];
    };
    string s = piece();
    const unsigned n = r.chance(1, 3) ? 0 : unsigned(r.logu(5));
    for (unsigned i = 0; i < n; ++i) {
        const string p = piece();
        switch (r.below(8)) {
        case 0:
        case 1: s.insert(r.below(s.size() + 1), p); break;
        case 2: s = p.substr(0, r.below(p.size() + 1)) + s; break;
        case 3: s = s.substr(0, r.below(s.size() + 1)) + p; break;
        case 4: {
            const size_t at = r.below(p.size() + 1);
            s = p.substr(0, at) + s + p.substr(at);
            break;
        }
        default:
            s += r.chance(1, 3) ? "" : r.chance(1, 2) ? "\n" : r.chance(2, 3) ? " " : special(r, o.valid_utf8);
            s += p;
        }
    }
    const unsigned misses = r.chance(1, 2) ? 0 : unsigned(r.range(1, 3));
    for (unsigned i = 0; i < misses; ++i) {
        near_miss(r, s);
    }
    if (r.chance(1, 6)) {
        s.insert(r.below(s.size() + 1), special(r, o.valid_utf8));
    }
    if (r.chance(1, 3)) {
        s.resize(r.below(s.size() + 1));
        if (r.chance(1, 3)) {
            s += r.chance(1, 2) ? word(r, c, lang) : special(r, o.valid_utf8);
            if (r.chance(1, 2)) {
                near_miss(r, s);
            }
        }
    }
    return s;
}

string random_string(Rng& r, Ctx& c, size_t max_len, bool valid)
{
    string s;
    const size_t n = some_len(r, c, std::max<size_t>(1, max_len)) - r.below(2);
    while (s.size() < n && n < size_t(1) << 40) {
        if (r.chance(1, 4)) {
            s += special(r, valid);
        }
        else {
            s += char(valid ? 0x20 + r.below(0x5f) : r.below(256));
        }
    }
    return s;
}

/// Makes one construct, line or piece of text so long that its length (or the number of lines or
/// tokens) passes a power of two, or a length that occurs in the code.
static void stretch(Rng& r, Ctx& c, int lang, string& s)
{
    static const char* const fillers[]
        = { "a", "a", " ", "\n", "0", "\t", "a ", "\xc3\xa4", "a\n", ", ", "\\n", "1_", "#", "-", "=", ".", "ab.", "\r\n" };
    static const unsigned char bits[] = { 7, 8, 8, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15, 16, 16 };
    // Long ones are expensive, so they are rare.
    const unsigned b = bits[r.below(r.chance(1, 8) ? sizeof bits : 8)];
    size_t want = (size_t(1) << b) + r.below(9) - 4;
    if (r.chance(1, 4)) {
        want = std::min<size_t>(r.pick(c.lengths), 70000) + r.below(3);
    }
    const bool huge = want > 6000;
    const string fill = !huge && r.chance(1, 6) ? word(r, c, lang) : string(fillers[r.below(18)]);
    if (fill.empty() || fill.size() > 40) {
        return;
    }
    const bool per_unit = r.chance(1, 3);
    string w;
    while ((per_unit ? w.size() / fill.size() : w.size()) < want) {
        w += fill;
    }
    const size_t at = r.below(s.size() + 1);
    if (huge && r.chance(7, 8)) {
        // Some highlighters look ahead from every position of a text for what ends it.
        // That is not wrong, but slow if the text is this long.
        s.resize(at);
    }
    else if (huge && w.size() > 20000) {
        w.resize(20000);
    }
    s.insert(at, w);
}

string gen_text(Rng& r, Ctx& c, int lang, const Text_Opts& o0)
{
    Text_Opts o = o0;
    if (o.allow_long && r.chance(1, 40)) {
        o.max_len *= 8;
    }
    string s;
    const u64 k = r.below(100);
    if (k < 2) {
        // empty or tiny
        s = r.chance(1, 3) ? string() : special(r, o.valid_utf8);
    }
    else if (k < 10) {
        // a soup of words
        const unsigned n = unsigned(r.logu(40));
        for (unsigned i = 0; i < n; ++i) {
            s += r.chance(3, 4) ? word(r, c, lang) : special(r, o.valid_utf8);
            if (r.chance(1, 4)) {
                s += r.chance(1, 3) ? "\n" : " ";
            }
        }
    }
    else if (k < 11) {
        s = random_string(r, c, std::min<size_t>(o.max_len, 200), o.valid_utf8);
    }
    else if (k < 50) {
        s = gen_constructs(r, c, lang, o);
    }
    else {
        s = base_doc(r, c, lang);
        if (k < 75 && s.size() > 200) {
            s = snippet(r, s, 600);
        }
        if (s.size() > o.max_len) {
            const size_t at = r.below(s.size() - o.max_len + 1);
            s = s.substr(r.chance(1, 3) ? 0 : at, o.max_len);
        }
        if (k < 93) {
            s = mutate(r, c, lang, std::move(s), o);
        }
    }
    if (s.size() > o.max_len) {
        s.resize(o.max_len);
    }
    if (o.allow_long && r.chance(1, 80)) {
        stretch(r, c, lang, s);
    }
    if (o.valid_utf8) {
        s = to_valid_utf8(s);
    }
    return s;
}

size_t gen_cap(Rng& r, size_t max)
{
    if (max >= 4096 && r.chance(1, 300)) {
        return size_t(r.range(65530, 65545));
    }
    switch (r.below(8)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return size_t(r.range(4, 16));
    case 4: return size_t(1) << r.range(0, 12);
    default: return size_t(r.logu(max));
    }
}

unsigned gen_flags(Rng& r)
{
    return unsigned(r.below(4));
}

string gen_name(Rng& r)
{
    static const char* const names[] = { "", "", "", "span", "h", "x-very-long-element-name-for-highlighting",
                                         "class", "data-highlight", "b", "\xc3\xa9l\xc3\xa9ment", "a1" };
    if (r.chance(1, 12)) {
        // Long ones, about powers of two.
        const size_t n = r.chance(1, 2) ? size_t(i64(u64(1) << r.range(5, 8)) + i64(r.below(5)) - 2)
                                        : size_t(r.range(20, 300));
        string s;
        for (size_t i = 0; i < n; ++i) {
            s += char('a' + (i * 7 + i / 26) % 26);
        }
        return s;
    }
    if (r.chance(1, 16)) {
        // The library is not to interpret them.
        static const char* const odd[] = { "%s%n", "{}", "a b", "x=y", "\"", "'", "\n", "\\", "&amp;", "$1", "/", "-",
                                           "\xff", "</" };
        string s = odd[r.below(sizeof odd / sizeof *odd)];
        if (r.chance(1, 3)) {
            s.insert(r.below(s.size() + 1), 1, '\0');
        }
        return s;
    }
    return names[r.below(sizeof names / sizeof *names)];
}

void gen_faults(Rng& r, Scenario& sc, const string& text, i64 target, unsigned n)
{
    static const char* const ops[] = { "truncate", "truncate", "flip", "flip", "lose", "dup", "zero", "swap" };
    for (unsigned i = 0; i < n; ++i) {
        Rec f = rec("fault");
        const string op = ops[r.below(8)];
        f.set("target", target);
        f.set("op", op);
        f.set("at", i64(r.below(text.size() + 1)));
        if (op == "flip") {
            f.set("bit", i64(r.below(8)));
        }
        else if (op != "truncate") {
            f.set("len", i64(r.logu(std::max<size_t>(1, std::min<size_t>(text.size(), 64)))));
        }
        if (op == "swap") {
            f.set("to", i64(r.below(text.size() + 1)));
        }
        sc.recs.push_back(std::move(f));
    }
}

string edit_in_place(Rng& r, const Ctx& c, int lang, string text)
{
    const auto is_word = [](char x) { return std::isalnum(static_cast<unsigned char>(x)) || x == '_'; };
    for (u64 edits = r.range(1, 3); edits-- && !text.empty();) {
        size_t b = r.below(text.size());
        for (size_t k = 0; k < text.size() && !is_word(text[b]); ++k) {
            b = (b + 1) % text.size();
        }
        if (!is_word(text[b])) {
            break;
        }
        size_t e = b;
        while (b > 0 && is_word(text[b - 1])) {
            --b;
        }
        while (e < text.size() && is_word(text[e])) {
            ++e;
        }
        bool done = false;
        for (int tries = 0; tries < 40 && !done && r.chance(39, 40); ++tries) {
            const auto& d = r.chance(3, 4) && !c.dict[size_t(lang)].empty() ? c.dict[size_t(lang)] : c.common;
            if (d.empty()) {
                break;
            }
            const string& w = d[r.below(d.size())];
            if (w.size() == e - b && w != string_view(text).substr(b, e - b)) {
                text.replace(b, e - b, w);
                done = true;
            }
        }
        if (!done) {
            char& x = text[b + r.below(e - b)];
            x = x == 'q' ? 'z' : 'q';
        }
    }
    return to_valid_utf8(text) == text ? text : to_valid_utf8(text);
}

Rec src_rec(Rng& r, Ctx& c, int doc, const Text_Opts& o)
{
    const int lang = gen_lang(r);
    Rec s = rec("src");
    s.set("doc", doc);
    s.set("lang", lang);
    s.set("flags", i64(gen_flags(r)));
    if (lang == 4 && r.chance(1, 12)) {
        s.set("text", gen_html_with_regions(r, c, o.allow_long ? 24000 : 3000));
    }
    else {
        s.set("text", gen_text(r, c, lang, o));
    }
    return s;
}

/// HTML with script and style regions, some with more tokens than any intermediate buffer.
string gen_html_with_regions(Rng& r, Ctx& c, size_t max_len)
{
    string s;
    const unsigned n = unsigned(r.range(1, 4));
    const Text_Opts small { .max_len = 300, .valid_utf8 = true, .allow_long = false };
    for (unsigned i = 0; i < n; ++i) {
        if (r.chance(1, 2)) {
            s += gen_text(r, c, 4, small);
        }
        const bool css = r.chance(1, 3);
        s += css ? "<style" : "<script";
        if (r.chance(1, 3)) {
            s += r.chance(1, 2) ? " async" : " type=\"module\"";
        }
        s += '>';
        if (r.chance(1, 2)) {
            s += gen_text(r, c, css ? 5 : 7, small);
        }
        else {
            // many tokens
            static const char* const unit_js[] = { "a+", "x;", "f(1),", "\"s\"", "[1]", "{}", "// c\n", "=>" };
            static const char* const unit_css[]
                = { "a{b:c}", "#id,", ".k{}", "@x;", "/*c*/", "p{q:1px}", "\"s\"", ">" };
            const string u = css ? unit_css[r.below(8)] : unit_js[r.below(8)];
            const size_t toks = size_t(r.chance(1, 2) ? r.range(500, 530) * r.range(1, 5) : r.logu(4000));
            string body;
            while (body.size() < toks * 2 && body.size() < max_len) {
                body += u;
            }
            s += body;
        }
        if (r.chance(5, 6)) {
            s += css ? "</style>" : "</script>";
        }
    }
    return s;
}

void gen_lookup(Rng& r, Ctx& c, Rec& o)
{
    static const char* const names[]
        = { "c",   "C",    "cpp",  "c++", "CPP", "h",   "hpp",  "js",  "javascript", "mjs", "jsx",  "ts",  "json", "jsonc", "html", "htm",
            "xml", "svg",  "css",  "py",  "rs",  "rust", "kt",  "kts", "md",         "ll",  "java", "yml", "yaml", "lua",   "tex",  "latex",
            "sh",  "bash", "zsh",  "asm", "nasm", "ebnf", "bnf", "diff", "patch",    "txt", "cow",  "cowel", "mmml", "",  "x",  "plaintext", "text", "exe" };
    const u64 kind = r.below(lookup_count);
    o.set("lookup", i64(kind));
    if (kind < 4) {
        string s = names[r.below(std::size(names))];
        if (r.chance(1, 6)) {
            s = random_string(r, c, 12, false);
        }
        if (r.chance(1, 6) && !s.empty()) {
            s[r.below(s.size())] ^= 0x20;
        }
        if (kind >= 2 && r.chance(7, 8)) {
            s = (r.chance(1, 2) ? "a." : "/x/y.z/long name.tar.") + s;
        }
        o.set("name", s);
    }
    else {
        o.set("value", i64(kind < 6 ? r.below(28) : r.below(256)));
    }
}

} // namespace sim
