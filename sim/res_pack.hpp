// Results of requests as bytes, and their comparison.
#pragma once
#include "child.hpp"
#include "hl.hpp"

namespace sim {

inline void pack(Packer& p, const Res& r)
{
    p.num(u64(r.status));
    p.str(r.error);
    p.num(r.has_error_text);
    p.num(r.toks.size());
    for (const Tok& t : r.toks) {
        p.num(t.begin);
        p.num(t.length);
        p.num(t.type);
    }
    p.str(r.text);
    p.num(r.calls.size());
    for (const size_t c : r.calls) {
        p.num(c);
    }
    p.str(r.proto);
    p.num(r.threw);
    p.num(r.src_modified);
    p.num(r.config_changed);
    p.str(r.config_diff);
    p.str(r.assert_text);
}

inline Res unpack_res(Unpacker& u)
{
    Res r;
    r.status = int(u.num());
    r.error = u.str();
    r.has_error_text = u.num() != 0;
    const u64 nt = u.num();
    for (u64 i = 0; i < nt && !u.bad; ++i) {
        Tok t {};
        t.begin = u.num();
        t.length = u.num();
        t.type = u8(u.num());
        r.toks.push_back(t);
    }
    r.text = u.str();
    const u64 nc = u.num();
    for (u64 i = 0; i < nc && !u.bad; ++i) {
        r.calls.push_back(size_t(u.num()));
    }
    r.proto = u.str();
    r.threw = u.num() != 0;
    r.src_modified = u.num() != 0;
    r.config_changed = u.num() != 0;
    r.config_diff = u.str();
    r.assert_text = u.str();
    return r;
}

/// Empty if a and b are the same outcome, else what differs.
inline string res_diff(const Res& a, const Res& b, string_view src)
{
    if (a.status != b.status) {
        return "status " + std::to_string(a.status) + " vs " + std::to_string(b.status);
    }
    if (a.toks != b.toks) {
        return first_diff(a.toks, b.toks, src);
    }
    if (a.text != b.text) {
        return "HTML at " + first_diff(a.text, b.text);
    }
    if (a.calls != b.calls) {
        return "sizes of the flushed chunks";
    }
    if (a.threw != b.threw) {
        return "a consumer failed in only one of them";
    }
    if (a.status != 0 && a.error != b.error) {
        return "error text " + escape_bytes(a.error) + " vs " + escape_bytes(b.error);
    }
    return {};
}

} // namespace sim
