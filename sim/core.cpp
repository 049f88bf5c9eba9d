#include "core.hpp"

#include <cstdio>
#include <cstdlib>

namespace sim {

Log* g_log = nullptr;
Stats g_stats;
string g_last_assert;

void Log::ev(string_view name, u64 a, u64 b, u64 c)
{
    ++events;
    h.str(name);
    h.num(a);
    h.num(b);
    h.num(c);
    if (keep && text.size() < 200'000) {
        char buf[96];
        std::snprintf(
            buf, sizeof buf, " %llu %llu %llu\n", (unsigned long long)a, (unsigned long long)b,
            (unsigned long long)c
        );
        text.append(name);
        text += buf;
    }
}

void Log::ev_str(string_view name, string_view s)
{
    ++events;
    h.str(name);
    h.str(s);
    if (keep && text.size() < 200'000) {
        text.append(name);
        text += ' ';
        text += printable(s);
        text += '\n';
    }
}

string escape_bytes(string_view s)
{
    static const char* hex = "0123456789abcdef";
    string r;
    r.reserve(s.size() + 2);
    r += '"';
    for (const char ch : s) {
        const u8 c = u8(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c >= 0x20 && c < 0x7f) {
            r += ch;
        }
        else {
            r += "\\x";
            r += hex[c >> 4];
            r += hex[c & 15];
        }
    }
    r += '"';
    return r;
}

string printable(string_view s, size_t max)
{
    if (s.size() <= max) {
        return escape_bytes(s);
    }
    return escape_bytes(s.substr(0, max / 2)) + "..." + escape_bytes(s.substr(s.size() - max / 2))
        + "(" + std::to_string(s.size()) + " bytes)";
}

string Scenario::serialize() const
{
    string r = "scenario " + prop + " seed=" + std::to_string(seed) + (cold ? "\n" : " cold=0\n");
    for (const auto& rc : recs) {
        r += rc.kind;
        for (const auto& [k, v] : rc.ints) {
            r += ' ';
            r += k;
            r += '=';
            r += std::to_string(v);
        }
        for (const auto& [k, v] : rc.strs) {
            r += ' ';
            r += k;
            r += '=';
            r += escape_bytes(v);
        }
        r += '\n';
    }
    return r;
}

bool Scenario::parse(string_view text, Scenario& out)
{
    out = {};
    size_t p = 0;
    bool first = true;
    const auto hexv = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    while (p < text.size()) {
        size_t e = text.find('\n', p);
        if (e == string_view::npos) {
            e = text.size();
        }
        const string_view line = text.substr(p, e - p);
        p = e + 1;
        if (line.empty() || line[0] == '#') {
            continue;
        }
        Rec r;
        size_t q = line.find(' ');
        r.kind = string(line.substr(0, q));
        while (q != string_view::npos && q < line.size()) {
            ++q;
            if (first && q < line.size() && line.substr(q).find('=') > line.substr(q).find(' ')) {
                const size_t s = line.find(' ', q);
                out.prop = string(line.substr(q, s - q));
                q = s;
                continue;
            }
            const size_t eq = line.find('=', q);
            if (eq == string_view::npos) {
                return false;
            }
            const string key { line.substr(q, eq - q) };
            q = eq + 1;
            if (q < line.size() && line[q] == '"') {
                string v;
                ++q;
                while (q < line.size() && line[q] != '"') {
                    if (line[q] == '\\' && q + 1 < line.size()) {
                        const char c = line[q + 1];
                        if (c == 'n') {
                            v += '\n';
                            q += 2;
                        }
                        else if (c == 'x' && q + 3 < line.size()) {
                            v += char(hexv(line[q + 2]) * 16 + hexv(line[q + 3]));
                            q += 4;
                        }
                        else {
                            v += c;
                            q += 2;
                        }
                    }
                    else {
                        v += line[q++];
                    }
                }
                ++q;
                r.strs.emplace_back(key, std::move(v));
            }
            else {
                const size_t s = line.find(' ', q);
                const string num { line.substr(q, s == string_view::npos ? s : s - q) };
                if (first && key == "seed") {
                    r.ints.emplace_back(key, i64(std::strtoull(num.c_str(), nullptr, 10)));
                }
                else {
                    r.ints.emplace_back(key, std::strtoll(num.c_str(), nullptr, 10));
                }
                q = s;
            }
        }
        if (first) {
            if (r.kind != "scenario") {
                return false;
            }
            out.seed = u64(r.i("seed"));
            out.cold = r.i("cold", 1) != 0;
            first = false;
            continue;
        }
        out.recs.push_back(std::move(r));
    }
    return !first;
}

namespace {
vector<Property>& registry()
{
    static vector<Property> v;
    return v;
}
} // namespace

void register_property(const Property& p)
{
    registry().push_back(p);
}

const Property* find_property(string_view id)
{
    for (const auto& p : registry()) {
        if (p.id == id) {
            return &p;
        }
    }
    return nullptr;
}

} // namespace sim
