// Properties of the streaming highlighting API: C01-C06, C08, C11, C12.
#include "child.hpp"
#include "gen.hpp"
#include "hl.hpp"
#include "res_pack.hpp"

#include <algorithm>
#include <set>

namespace sim {
namespace {

string status_name(int s)
{
    static const char* const names[] = { "OK",        "BAD_BUFFER", "BAD_LANG",  "BAD_TEXT",
                                         "BAD_STATE", "BAD_CODE",   "BAD_ALLOC", "INTERNAL_ERROR" };
    return s >= 0 && s < 8 ? names[s] : std::to_string(s);
}

string because(const Res& r)
{
    return r.assert_text.empty() ? string() : " (assertion: " + r.assert_text + ")";
}

/// Anything the code under test must never do, whatever the property. Returns false if it did.
bool basics(const Res& r, Verdict& v)
{
    if (r.src_modified) {
        v.fail("source-modified", "the source text was modified");
        return false;
    }
    return true;
}

const Rec* first(const Scenario& sc, string_view kind)
{
    for (const auto& r : sc.recs) {
        if (r.kind == kind) {
            return &r;
        }
    }
    return nullptr;
}

void probe(const Req& q, const Res& r)
{
    if (r.calls.size() > 1) {
        SIM_HIT("probe:several-flushes");
    }
    if (r.calls.size() > 1000) {
        SIM_HIT("probe:over-1000-flushes");
    }
    if (q.lang == 4 && r.toks.size() > 1024) {
        SIM_HIT("probe:html-over-1024-tokens");
    }
    if (r.status == ULIGHT_STATUS_BAD_TEXT) {
        SIM_HIT("probe:bad-text");
    }
    if (q.flags & 1) {
        SIM_HIT("probe:coalescing");
    }
    if (q.flags & 2) {
        SIM_HIT("probe:strict");
    }
    SIM_HIT(q.html ? "requests:html" : "requests:tokens");
}

Res run_logged(const Req& q)
{
    Res r = run_fresh(q);
    log_res(r);
    probe(q, r);
    return r;
}

// ------------------------------------------------------------------------------------------- C01

bool check_stream(const Req& q, const vector<Tok>& toks, Verdict& v)
{
    const bool valid = utf8_valid(q.src);
    u64 end = 0;
    for (size_t i = 0; i < toks.size(); ++i) {
        const Tok& t = toks[i];
        const string where = "lang " + std::to_string(q.lang) + ", token " + std::to_string(i) + " "
            + tok_str(t, q.src) + ", source length " + std::to_string(q.src.size());
        if (t.length == 0) {
            v.fail("empty-token", where);
        }
        else if (t.begin >= q.src.size() || t.length > q.src.size() - t.begin) {
            v.fail("token-out-of-bounds", where);
        }
        else if (i != 0 && t.begin < end) {
            v.fail("tokens-overlap-or-disordered", where + " after " + tok_str(toks[i - 1], q.src));
        }
        else if (type_name(t.type).empty()) {
            v.fail("unnamed-type", where);
        }
        else if (valid && !utf8_boundary(q.src, t.begin)) {
            v.fail("token-begins-inside-code-point", where);
        }
        else if (valid && !utf8_boundary(q.src, t.begin + t.length)) {
            v.fail("token-ends-inside-code-point", where);
        }
        else {
            end = t.begin + t.length;
            continue;
        }
        return false;
    }
    return true;
}

void gen_c01(Rng& r, Ctx& c, Scenario& sc)
{
    const bool valid = r.chance(3, 4);
    sc.recs.push_back(src_rec(r, c, 0, { .valid_utf8 = valid }));
    if (r.chance(1, 3)) {
        gen_faults(r, sc, sc.recs[0].s("text"), 0, unsigned(r.logu(3)));
    }
    Rec run = rec("run");
    run.set("tokcap", i64(gen_cap(r)));
    sc.recs.push_back(run);
}
void exec_c01(const Scenario& sc, Verdict& v)
{
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        const Res res = run_logged(q);
        check_stream(q, res.toks, v);
        basics(res, v);
        if (!v.ok) {
            return;
        }
    }
}
const Reg c01 { { "C01", gen_c01, exec_c01, "text" } };

// ------------------------------------------------------------------------------------------- C02

void gen_c02(Rng& r, Ctx& c, Scenario& sc)
{
    sc.recs.push_back(src_rec(r, c, 0, { .max_len = 2000, .valid_utf8 = r.chance(7, 8) }));
    if (r.chance(1, 8)) {
        gen_faults(r, sc, sc.recs[0].s("text"), 0, 1);
    }
    const unsigned n = unsigned(r.range(2, 4));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        const bool html = r.chance(2, 5);
        run.set("html", html);
        run.set("tokcap", i64(gen_cap(r)));
        if (html) {
            run.set("textcap", i64(gen_cap(r, 70000)));
        }
        if (r.chance(1, 2)) {
            run.set("scribble", i64(r.range(1, 3)));
        }
        if (r.chance(1, 4)) {
            run.set("cxx", 1);
        }
        sc.recs.push_back(run);
    }
}
void exec_c02(const Scenario& sc, Verdict& v)
{
    Req base;
    Res base_tok, base_html;
    bool have_tok = false, have_html = false;
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        Res& ref = q.html ? base_html : base_tok;
        bool& have = q.html ? have_html : have_tok;
        if (!have) {
            base = q;
            base.tokcap = q.src.size() + 16;
            base.textcap = q.src.size() * 64 + 1024;
            base.scribble = 0;
            base.cxx = false;
            ref = run_logged(base);
            have = true;
        }
        const Res res = run_logged(q);
        const string conf = "lang " + std::to_string(q.lang) + " flags " + std::to_string(q.flags)
            + " token buffer " + std::to_string(q.tokcap)
            + (q.html ? " text buffer " + std::to_string(q.textcap) : string())
            + (q.scribble ? " (callback overwrites the buffer)" : "") + ": ";
        if (q.scribble) {
            SIM_HIT("callback-scribbles");
        }
        if (res.status != ref.status) {
            v.fail(
                "status-depends-on-buffer",
                conf + status_name(res.status) + because(res) + " instead of "
                    + status_name(ref.status) + because(ref)
            );
            return;
        }
        if (q.html) {
            const bool same = ref.status == 0
                ? res.text == ref.text
                : res.text.starts_with(ref.text) || ref.text.starts_with(res.text);
            if (!same) {
                v.fail("text-depends-on-buffer", conf + first_diff(res.text, ref.text));
                return;
            }
        }
        else {
            vector<Tok> a = res.toks, b = ref.toks;
            if (ref.status != 0) {
                const size_t n = std::min(a.size(), b.size());
                a.resize(n);
                b.resize(n);
            }
            if (a != b) {
                v.fail("tokens-depend-on-buffer", conf + first_diff(a, b, q.src));
                return;
            }
        }
        if (!basics(res, v)) {
            return;
        }
    }
}
const Reg c02 { { "C02", gen_c02, exec_c02, "text" } };

// ------------------------------------------------------------------------------------------- C03

void gen_c03(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned docs = unsigned(r.range(1, 3));
    for (unsigned d = 0; d < docs; ++d) {
        sc.recs.push_back(src_rec(r, c, int(d), { .max_len = 1200, .valid_utf8 = r.chance(5, 6) }));
        if (r.chance(1, 6)) {
            const string text = sc.recs.back().s("text");
            gen_faults(r, sc, text, i64(d), 1);
        }
    }
    const unsigned n = unsigned(r.range(1, 5));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        run.set("doc", i64(r.below(docs)));
        run.set("html", i64(r.chance(1, 2)));
        run.set("tokcap", i64(gen_cap(r, 512)));
        run.set("textcap", i64(gen_cap(r, 4096)));
        if (r.chance(1, 4)) {
            run.set("scribble", i64(r.range(1, 3)));
        }
        if (r.chance(1, 3)) {
            run.set("cxx", 1);
        }
        if (r.chance(1, 5)) {
            run.set("fail_at", i64(r.logu(r.chance(1, 2) ? 5 : 100) - 1));
            run.set("exc", i64(r.below(exc_count)));
        }
        sc.recs.push_back(run);
    }
}
void exec_c03(const Scenario& sc, Verdict& v)
{
    Client client;
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        const Res res = client.request(q);
        log_res(res);
        probe(q, res);
        const size_t cap = q.html ? q.textcap : q.tokcap;
        const string conf = string(q.html ? "HTML" : "token") + " request, lang "
            + std::to_string(q.lang) + ", buffer " + std::to_string(cap) + ": ";
        if (!res.proto.empty()) {
            v.fail("flush-protocol", conf + res.proto);
            return;
        }
        if (res.status != 0 && !res.threw && !res.calls.empty() && res.calls.back() != cap) {
            v.fail(
                "flush-protocol",
                conf + "a failed request (" + status_name(res.status)
                    + ") delivered a partial buffer"
            );
            return;
        }
        size_t sum = 0;
        for (const size_t n : res.calls) {
            sum += n;
        }
        if (res.status == 0) {
            // Nothing was held back: everything was delivered before the request returned.
            Req all = q;
            all.scribble = 0;
            all.fail_at = -1;
            (q.html ? all.textcap : all.tokcap) = q.html ? q.src.size() * 64 + 1024 : q.src.size() + 16;
            if (q.html) {
                all.tokcap = q.src.size() + 16;
            }
            const Res ref = run_fresh(all);
            const size_t want = q.html ? ref.text.size() : ref.toks.size();
            if (ref.status == 0 && sum != want) {
                v.fail(
                    "flush-protocol",
                    conf + std::to_string(sum) + " elements delivered before the request returned, expected "
                        + std::to_string(want)
                );
                return;
            }
            if (ref.status == 0 && ref.calls.size() != (want != 0)) {
                v.fail("flush-protocol", conf + "a buffer that fits everything was flushed "
                    + std::to_string(ref.calls.size()) + " times");
                return;
            }
        }
        if (!basics(res, v)) {
            return;
        }
    }
}
const Reg c03 { { "C03", gen_c03, exec_c03, "text" } };

// ------------------------------------------------------------------------------------------- C04

void gen_c04(Rng& r, Ctx& c, Scenario& sc)
{
    sc.recs.push_back(src_rec(r, c, 0, { .max_len = 2500, .valid_utf8 = r.chance(9, 10) }));
    if (r.chance(1, 2)) {
        // many characters that need escaping, in gaps, tokens and the tail
        string t = sc.recs[0].s("text");
        const unsigned n = unsigned(r.logu(30));
        for (unsigned i = 0; i < n; ++i) {
            const size_t at = r.below(t.size() + 1);
            if (utf8_boundary(t, at)) {
                t.insert(at, 1, "<>&\"'"[r.below(5)]);
            }
        }
        sc.recs[0].set("text", t);
    }
    if (r.chance(1, 8)) {
        gen_faults(r, sc, sc.recs[0].s("text"), 0, 1);
    }
    const unsigned n = unsigned(r.range(1, 3));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        run.set("html", 1);
        run.set("tokcap", i64(gen_cap(r)));
        run.set("textcap", i64(gen_cap(r, 70000)));
        const string tag = gen_name(r), attr = gen_name(r);
        if (!tag.empty()) {
            run.set("tag", tag);
        }
        if (!attr.empty()) {
            run.set("attr", attr);
        }
        if (r.chance(1, 4)) {
            run.set("cxx", 1);
        }
        sc.recs.push_back(run);
    }
}
void exec_c04(const Scenario& sc, Verdict& v)
{
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        Req tq = q;
        tq.html = false;
        tq.tokcap = 997;
        const Res toks = run_logged(tq);
        const Res res = run_logged(q);
        const string conf = "lang " + std::to_string(q.lang) + " flags " + std::to_string(q.flags)
            + " buffers " + std::to_string(q.tokcap) + "/" + std::to_string(q.textcap) + ": ";
        if (toks.status != res.status) {
            v.fail(
                "html-status-differs",
                conf + status_name(res.status) + because(res) + " although the token request gave "
                    + status_name(toks.status) + because(toks)
            );
            return;
        }
        if (res.status != 0) {
            continue;
        }
        const string tag = q.tag.empty() ? "h-" : q.tag;
        const string attr = q.attr.empty() ? "data-h" : q.attr;
        const string want = render_html(q.src, toks.toks, tag, attr);
        if (want != res.text) {
            v.fail("html-is-not-the-rendering", conf + first_diff(res.text, want));
            return;
        }
        string back;
        if (!unrender_html(res.text, tag, attr, back) || back != q.src) {
            v.fail("html-is-not-lossless", conf + first_diff(back, q.src));
            return;
        }
        if (!basics(res, v)) {
            return;
        }
    }
}
const Reg c04 { { "C04", gen_c04, exec_c04, "text" } };

// ------------------------------------------------------------------------------------------- C05

constexpr u64 flat_bytes = 400'000;

/// Minimising may not turn a unit that does not nest into one that does.
i64 flat_sum(const Rec& r)
{
    u64 h = 1469598103934665603ULL;
    for (const char* const k : { "before", "unit", "after" }) {
        for (const char ch : r.s(k) + '\n') {
            h = (h ^ u8(ch)) * 1099511628211ULL;
        }
    }
    return i64(h >> 2);
}

void gen_c05(Rng& r, Ctx& c, Scenario& sc)
{
    if (r.chance(1, 400)) {
        const int lang = gen_lang(r);
        const auto& flats = c.flats[size_t(lang)];
        if (!flats.empty()) {
            const string& f = r.pick(flats);
            const size_t a = f.find('\0'), b = f.find('\0', a + 1);
            Rec run = rec("flat");
            run.set("lang", lang);
            run.set("html", i64(r.chance(1, 3)));
            run.set("before", f.substr(0, a));
            run.set("unit", f.substr(a + 1, b - a - 1));
            run.set("after", f.substr(b + 1));
            run.set("n", i64(r.range(flat_bytes / 4, flat_bytes) / (b - a - 1)));
            run.set("sum", flat_sum(run));
            sc.recs.push_back(run);
            return;
        }
    }
    const bool valid = r.chance(2, 3);
    sc.recs.push_back(src_rec(r, c, 0, { .valid_utf8 = valid }));
    if (r.chance(1, 3)) {
        gen_faults(r, sc, sc.recs[0].s("text"), 0, unsigned(r.logu(3)));
    }
    Rec run = rec("run");
    run.set("html", i64(r.chance(1, 3)));
    run.set("tokcap", i64(gen_cap(r)));
    run.set("textcap", i64(gen_cap(r, 4096)));
    sc.recs.push_back(run);
}
/// A text that repeats one opening construct, in a thread with an ordinary stack of 8 MB.
void exec_nest(const Rec& r, Verdict& v)
{
    Req q;
    q.lang = int(r.i("lang"));
    q.html = r.i("html") != 0;
    q.tokcap = 512;
    q.textcap = 512;
    for (i64 k = 0; k < r.i("n"); ++k) {
        q.src += r.s("open");
    }
    SIM_HIT("probe:deep-nesting-on-an-ordinary-stack");
    const string out = on_ordinary_stack([&](string& o) { Packer { o }.num(u64(run_fresh(q).status)); });
    Unpacker u { out };
    const int status = int(u.num());
    if (status != 0) {
        v.fail("valid-request-fails:" + status_name(status), "deep nesting: " + status_name(status));
    }
}

/// A long text of which no construct is inside another, in a thread with a small stack.
void exec_flat(const Rec& r, Verdict& v)
{
    if (r.i("sum") != flat_sum(r)) {
        return;
    }
    Req q;
    q.lang = int(r.i("lang"));
    q.html = r.i("html") != 0;
    q.tokcap = 512;
    q.textcap = 512;
    q.src = r.s("before");
    for (i64 k = 0; k < r.i("n"); ++k) {
        q.src += r.s("unit");
    }
    q.src += r.s("after");
    SIM_HIT("probe:long-flat-text-on-a-small-stack");
    const string out = on_ordinary_stack(
        [&](string& o) { Packer { o }.num(u64(run_fresh(q).status)); }, size_t(2) << 20
    );
    Unpacker u { out };
    const int status = int(u.num());
    if (status != 0) {
        v.fail("valid-request-fails:" + status_name(status), "long text: " + status_name(status));
    }
}

void exec_c05(const Scenario& sc, Verdict& v)
{
    for (const auto& r : sc.recs) {
        if (r.kind == "flat") {
            exec_flat(r, v);
            continue;
        }
        if (r.kind == "nest") {
            exec_nest(r, v);
            continue;
        }
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        const Res res = run_logged(q);
        const bool valid = utf8_valid(q.src);
        const string conf = "lang " + std::to_string(q.lang) + " flags " + std::to_string(q.flags) + ", "
            + (valid ? "valid" : "invalid") + " UTF-8 of " + std::to_string(q.src.size()) + " bytes: ";
        if (!valid) {
            SIM_HIT("probe:invalid-utf8");
        }
        if (valid && res.status != 0) {
            v.fail(
                "valid-request-fails:" + status_name(res.status),
                conf + status_name(res.status) + " " + escape_bytes(res.error) + because(res)
            );
            return;
        }
        if (res.status != 0 && res.status != ULIGHT_STATUS_BAD_TEXT) {
            v.fail(
                "corrupted-request-fails:" + status_name(res.status),
                conf + status_name(res.status) + " " + escape_bytes(res.error) + because(res)
            );
            return;
        }
        if (res.status != 0 && !res.has_error_text) {
            v.fail("no-error-text", conf + "failed without an error text");
            return;
        }
        const u64 n = q.src.size() + 1;
        const u64 per = res.steps / n;
        g_stats.n["max-steps-per-byte"] = std::max(g_stats.n["max-steps-per-byte"], n > 64 ? per : 0);
        if (!basics(res, v)) {
            return;
        }
    }
}
const Reg c05 { { "C05", gen_c05, exec_c05, "text" } };

// ------------------------------------------------------------------------------------------- C06

void gen_c06(Rng& r, Ctx& c, Scenario& sc)
{
    Rec s = src_rec(r, c, 0, { .max_len = 2000, .valid_utf8 = r.chance(4, 5) });
    string text = s.s("text");
    string rest;
    if (!text.empty() && r.chance(2, 3)) {
        // Cut the document anywhere; what follows in memory is its own continuation.
        const size_t at = r.below(text.size() + 1);
        rest = text.substr(at);
        text.resize(at);
        s.set("text", text);
    }
    const int lang = int(s.i("lang"));
    sc.recs.push_back(s);
    const unsigned n = unsigned(r.range(1, 3));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        const bool html = r.chance(1, 4);
        run.set("html", i64(html));
        run.set("tokcap", i64(gen_cap(r, 600)));
        if (html) {
            run.set("textcap", i64(gen_cap(r, 5000)));
            const string tag = gen_name(r), attr = gen_name(r);
            if (!tag.empty()) {
                run.set("tag", tag);
            }
            if (!attr.empty()) {
                run.set("attr", attr);
            }
            if (r.chance(2, 3)) {
                static const char* const more[] = { " x=\"", ">", "\"><i>", "-suffix", "\xa9", "&" };
                run.set("name_after", r.chance(1, 8) ? string(3, '\0') : string(more[r.below(6)]));
            }
        }
        if (r.chance(1, 5)) {
            run.set("cxx", 1);
        }
        string before, after;
        switch (r.below(7)) {
        case 0: after = rest.substr(0, 200); break;
        case 1: after = r.pick(c.dict[size_t(lang)]) + r.pick(c.dict[size_t(lang)]); break;
        case 2: after = string(r.range(1, 30), text.empty() ? 'x' : text.back()); break;
        case 3: after = "\x80\xbf\x80\xbf"; break;
        case 4: after = random_string(r, c, 40, false); break;
        case 5: after = string(r.range(1, 16), '\0'); break;
        default: break;
        }
        switch (r.below(4)) {
        case 0: before = r.pick(c.dict[size_t(lang)]); break;
        case 1: before = random_string(r, c, 20, false); break;
        case 2: before = "\\"; break;
        default: break;
        }
        if (after.empty() && before.empty()) {
            after = rest.empty() ? "\"" : rest.substr(0, 40);
        }
        run.set("before", before);
        run.set("after", after);
        sc.recs.push_back(run);
    }
    if (r.chance(1, 12)) {
        // Names and paths that are looked up need no terminator either.
        Rec run = rec("run");
        gen_lookup(r, c, run);
        static const char* const more[] = { "p", "s", "+", "l", ".js", "on", "++", "\x80", "ml" };
        run.set("after", r.chance(1, 4) ? string(2, '\0') : string(more[r.below(9)]));
        sc.recs.push_back(run);
    }
}
void exec_c06(const Scenario& sc, Verdict& v)
{
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        const Req q = req_from(r, sc);
        Req alone = q;
        alone.before.clear();
        alone.after.clear();
        alone.name_after.clear();
        const Res a = run_logged(alone);
        const Res b = run_logged(q);
        SIM_HIT("hostile-surroundings");
        const string conf = "lang " + std::to_string(q.lang) + ", preceded by " + printable(q.before, 40)
            + ", followed by " + printable(q.after, 40) + ": ";
        if (a.status != b.status) {
            v.fail(
                "surroundings-change-status", conf + status_name(b.status) + because(b) + " vs "
                    + status_name(a.status) + because(a)
            );
        }
        else if (a.toks != b.toks) {
            v.fail("surroundings-change-tokens", conf + first_diff(b.toks, a.toks, q.src));
        }
        else if (a.text != b.text) {
            v.fail("surroundings-change-text", conf + first_diff(b.text, a.text));
        }
        if (!basics(a, v) || !basics(b, v) || !v.ok) {
            return;
        }
    }
}
const Reg c06 { { "C06", gen_c06, exec_c06, "text" } };

// ------------------------------------------------------------------------------------------- C08

void gen_c08(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned docs = unsigned(r.range(1, 2));
    for (unsigned d = 0; d < docs; ++d) {
        sc.recs.push_back(src_rec(r, c, int(d), { .max_len = 700, .valid_utf8 = true, .allow_long = false }));
    }
    const unsigned n = unsigned(r.range(1, 4));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        const bool html = r.chance(1, 2);
        run.set("doc", i64(r.below(docs)));
        run.set("html", html);
        run.set("tokcap", i64(gen_cap(r, 128)));
        run.set("textcap", i64(gen_cap(r, 2048)));
        if (r.chance(5, 6)) {
            // position from the end (so that final flushes are hit often) or from the start
            run.set("fail_from_end", i64(r.chance(1, 2)));
            run.set("fail_at", r.chance(1, 2) ? 0 : i64(r.logu(200)));
            run.set("exc", i64(r.below(exc_count)));
            if (r.chance(1, 16)) {
                run.set("times", i64(r.logu(300)));
            }
        }
        if (r.chance(1, 3)) {
            run.set("cxx", 1);
        }
        if (r.chance(1, 4)) {
            run.set("scribble", i64(r.range(1, 3)));
        }
        sc.recs.push_back(run);
    }
}
void exec_c08(const Scenario& sc, Verdict& v)
{
    Client client;
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        Req q = req_from(r, sc);
        Req plain = q;
        plain.fail_at = -1;
        const Res full = run_fresh(plain);
        if (full.status != 0) {
            continue; // judged elsewhere
        }
        const size_t n = full.calls.size();
        if (q.fail_at >= 0) {
            if (n == 0) {
                q.fail_at = -1;
            }
            else {
                q.fail_at %= i64(n);
                if (r.i("fail_from_end")) {
                    q.fail_at = i64(n) - 1 - q.fail_at;
                }
            }
        }
        const i64 live_before = i64(g_alloc.live);
        alloc_arm(-1);
        const Res res = client.request(q);
        alloc_disarm();
        log_res(res);
        probe(q, res);
        const string conf = string(q.html ? "HTML" : "token") + " request, lang " + std::to_string(q.lang)
            + ", callback " + std::to_string(q.fail_at) + " of " + std::to_string(n) + " fails: ";
        if (!res.proto.empty()) {
            v.fail("consumer-failure-protocol", conf + res.proto);
            return;
        }
        if (res.config_changed) {
            v.fail("consumer-failure-changes-state", conf + "changed: " + res.config_diff);
            return;
        }
        if (i64(g_alloc.live) != live_before) {
            v.fail("consumer-failure-leaks", conf + "memory stays allocated");
            return;
        }
        if (q.fail_at < 0) {
            if (res.status != 0 || res.toks != full.toks || res.text != full.text) {
                v.fail(
                    "retry-differs", conf + "a request after earlier failures gives "
                        + status_name(res.status) + because(res) + " or another output"
                );
                return;
            }
            continue;
        }
        SIM_HIT(u64(q.fail_at) + 1 == n ? "probe:final-flush-fails" : "probe:inner-flush-fails");
        if (!res.threw) {
            v.fail("consumer-failure-skipped", conf + "the failing callback was never reached");
            return;
        }
        if (res.status == 0) {
            v.fail("consumer-failure-unreported", conf + "the request reports success");
            return;
        }
        if (!res.has_error_text) {
            v.fail("consumer-failure-no-text", conf + "no error text");
            return;
        }
        size_t want = 0;
        for (i64 k = 0; k < q.fail_at; ++k) {
            want += full.calls[size_t(k)];
        }
        if (q.html) {
            if (res.text != full.text.substr(0, want)) {
                v.fail("consumer-failure-prefix", conf + first_diff(res.text, full.text));
                return;
            }
        }
        else if (res.toks != vector<Tok>(full.toks.begin(), full.toks.begin() + i64(want))) {
            v.fail("consumer-failure-prefix", conf + first_diff(res.toks, full.toks, q.src));
            return;
        }
        // What every failure leaves behind adds up.
        for (i64 t = 1; t < std::min<i64>(r.i("times", 1), 1000); ++t) {
            const Res more = client.request(q);
            SIM_HIT("probe:repeated-failures");
            if (more.status != res.status || more.toks != res.toks || more.text != res.text) {
                v.fail("retry-differs", conf + "after " + std::to_string(t) + " such failures the request gives "
                    + status_name(more.status) + because(more) + " or another output");
                return;
            }
        }
        // The same state again, at once.
        const Res again = client.request(plain);
        log_res(again);
        if (again.status != 0 || again.toks != full.toks || again.text != full.text) {
            v.fail(
                "retry-differs", conf + "a retry on the same state gives " + status_name(again.status)
                    + because(again) + " or another output"
            );
            return;
        }
    }
}
const Reg c08 { { "C08", gen_c08, exec_c08, "text" } };

// ------------------------------------------------------------------------------------------- C11

void gen_c11(Rng& r, Ctx& c, Scenario& sc)
{
    Rec s = src_rec(r, c, 0, { .max_len = 2500, .valid_utf8 = r.chance(9, 10) });
    s.set("flags", i64(r.below(2) * 2));
    sc.recs.push_back(s);
    const unsigned n = unsigned(r.range(1, 3));
    for (unsigned i = 0; i < n; ++i) {
        Rec run = rec("run");
        run.set("tokcap", i64(gen_cap(r)));
        if (r.chance(1, 3)) {
            run.set("scribble", i64(r.range(1, 3)));
        }
        sc.recs.push_back(run);
    }
}
void exec_c11(const Scenario& sc, Verdict& v)
{
    bool have = false;
    Res plain, ref;
    for (const auto& r : sc.recs) {
        if (r.kind != "run") {
            continue;
        }
        Req q = req_from(r, sc);
        if (!have) {
            Req p = q;
            p.flags &= ~1u;
            p.tokcap = q.src.size() + 16;
            p.scribble = 0;
            plain = run_logged(p);
            p.flags |= 1u;
            ref = run_logged(p);
            have = true;
        }
        q.flags |= 1u;
        const Res res = run_logged(q);
        const string conf = "lang " + std::to_string(q.lang) + " flags " + std::to_string(q.flags)
            + " token buffer " + std::to_string(q.tokcap) + ": ";
        if (res.status != plain.status) {
            v.fail("coalescing-changes-status", conf + status_name(res.status) + because(res) + " vs "
                + status_name(plain.status) + because(plain));
            return;
        }
        if (res.status != 0) {
            continue;
        }
        if (res.toks != ref.toks) {
            v.fail("coalescing-depends-on-flushes", conf + first_diff(res.toks, ref.toks, q.src));
            return;
        }
        // Every coalesced token is a run of directly adjacent plain tokens of its own type.
        size_t k = 0;
        for (size_t i = 0; i < res.toks.size(); ++i) {
            const Tok& t = res.toks[i];
            u64 at = t.begin;
            size_t used = 0;
            while (k < plain.toks.size() && plain.toks[k].begin == at && plain.toks[k].type == t.type
                   && at + plain.toks[k].length <= t.begin + t.length) {
                at += plain.toks[k].length;
                ++k;
                ++used;
            }
            if (used > 1) {
                SIM_HIT("probe:tokens-merged");
            }
            if (at != t.begin + t.length) {
                v.fail(
                    "coalescing-changes-highlighting",
                    conf + "coalesced token " + tok_str(t, q.src) + " is not a run of plain tokens; next plain token: "
                        + (k < plain.toks.size() ? tok_str(plain.toks[k], q.src) : string("none"))
                );
                return;
            }
        }
        if (k != plain.toks.size()) {
            v.fail("coalescing-changes-highlighting", conf + "plain token " + tok_str(plain.toks[k], q.src)
                + " is not part of any coalesced token");
            return;
        }
    }
}
const Reg c11 { { "C11", gen_c11, exec_c11, "text" } };

// ------------------------------------------------------------------------------------------- C12

/// Where raw text ends, after https://html.spec.whatwg.org/#cdata-rcdata-restrictions
bool has_terminator(string_view body, string_view name, bool at_end = false)
{
    for (size_t i = 0; i + 2 <= body.size(); ++i) {
        if (body[i] == '<' && body[i + 1] == '/') {
            size_t k = 0;
            while (k < name.size() && i + 2 + k < body.size()
                   && (body[i + 2 + k] | 0x20) == name[k]) {
                ++k;
            }
            if (k != name.size()) {
                continue;
            }
            if (i + 2 + k == body.size() ? at_end : string_view("\t\n\f\r />").contains(body[i + 2 + k])) {
                return true;
            }
        }
    }
    return false;
}
string strip_terminators(string body, string_view name)
{
    while (has_terminator(body, name, true)) {
        for (size_t i = 0; i + 2 <= body.size(); ++i) {
            if (body[i] == '<' && body[i + 1] == '/' && i + 2 < body.size()
                && (body[i + 2] | 0x20) == name[0]) {
                body.erase(i, 2);
            }
        }
    }
    // A body must not end in something that its end tag would complete.
    while (!body.empty() && (body.back() == '<' || body.back() == '/')) {
        body.pop_back();
    }
    return body;
}

/// Cuts tokens that lie across one of the (ascending) positions.
vector<Tok> split_at(const vector<Tok>& toks, const vector<u64>& at)
{
    vector<Tok> out;
    size_t k = 0;
    for (Tok t : toks) {
        while (k < at.size() && at[k] <= t.begin) {
            ++k;
        }
        for (size_t j = k; j < at.size() && at[j] < t.begin + t.length; ++j) {
            if (at[j] == t.begin) {
                continue;
            }
            Tok head = t;
            head.length = at[j] - t.begin;
            out.push_back(head);
            t.begin = at[j];
            t.length -= head.length;
        }
        out.push_back(t);
    }
    return out;
}

void gen_c12(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned n = unsigned(r.range(1, 4));
    const unsigned flags = gen_flags(r);
    static const char* const opens_js[] = { "<script>", "<SCRIPT>", "<script async>", "<script type=\"module\">",
                                            "<Script\n>", "<script src='a' defer >", "<script a=b >",
                                            "<sCRIPT a=\">\">", "<script\t\nb='</script>'>",
                                            "<script type=\"application/json\">", "<script type=application/ld+json>",
                                            "<script type='importmap'>", "<script type=\"text/typescript\">",
                                            "<script lang=\"ts\">", "<script type=text/babel>", "<script type=\"text/plain\">",
                                            "<script type=\"text/template\">", "<script language=\"VBScript\">",
                                            "<script src=\"a.js\">", "<script data-x type=text/x-handlebars>",
                                            "<script nomodule type='TEXT/JAVASCRIPT'>", "<script type=\"text/html\">",
                                            "<script type>", "<script type=\"\">", "<script/>", "<script a=/>" };
    static const char* const opens_css[] = { "<style>", "<STYLE>", "<style media=\"print\">", "<style >",
                                             "<sTyLe a='>' b>", "<style\r\nc=\"<style>\">",
                                             "<style lang=\"scss\">", "<style type=\"text/less\">", "<style type=text/css>",
                                             "<style media=print scoped>", "<style type=text/x-sass>", "<style/>",
                                             "<style lang='stylus'>" };
    for (unsigned i = 0; i < n; ++i) {
        Rec p = rec("region");
        const bool css = r.chance(2, 5);
        string markup;
        static const char* const plain[] = { "", "\n", "<p>text</p>\n", "<!DOCTYPE html>\n<html>", "<a href=\"x\">l</a>",
                                             "&amp; text ", "<!-- c -->", "\xc3\xa9\xe2\x82\xac", "<br/>", "<title>t</title>",
                                             "<!-- <script> -->", "<a href=\"<style>\">", "<title><script></title>",
                                             "<TEXTAREA><style>&lt;</textarea >", "<scripts>", "<styles a=b>",
                                             "</p>", "<input disabled>" };
        const unsigned m = unsigned(r.below(4));
        for (unsigned k = 0; k < m; ++k) {
            markup += plain[r.below(std::size(plain))];
        }
        p.set("markup", markup);
        p.set("css", css);
        p.set("open", string(css ? opens_css[r.below(std::size(opens_css))] : opens_js[r.below(std::size(opens_js))]));
        string body;
        const u64 kind = r.below(10);
        const int lang = css ? 5 : 7;
        if (kind < 6) {
            body = gen_text(r, c, lang, { .max_len = r.chance(1, 6) ? size_t(20000) : size_t(1500),
                                          .valid_utf8 = true, .allow_long = false });
        }
        else if (kind < 9) {
            const string unit = gen_text(r, c, lang, { .max_len = 40, .valid_utf8 = true, .allow_long = false });
            const bool huge = r.chance(1, 120); // past what 16 bits count
            const size_t times = huge ? size_t(140000) : size_t(r.range(1, 3000));
            const size_t max = huge ? size_t(r.range(65000, 140000)) : r.chance(1, 4) ? 40000 : 6000;
            for (size_t k = 0; k < times && body.size() < max && !unit.empty(); ++k) {
                body += unit;
            }
        }
        // The library looks ahead to the end of the text for each possible JSX tag:
        // many of those in a long text make the run slow without making it more interesting.
        if (body.size() > 3000 && std::count(body.begin(), body.end(), '<') > 40) {
            size_t n = 3000;
            while (!utf8_boundary(body, n)) {
                --n;
            }
            body.resize(n);
        }
        const string name = css ? "style" : "script";
        body = strip_terminators(std::move(body), name);
        if (r.chance(1, 6)) {
            // near misses of the end tag
            static const char* const near_js[] = { "</scrip>", "</style>", "</ script>", "< /script>", "<script>",
                                                   "</scripts>", "</script-x>", "</SCRIPT_ ", "</script", "<//script>",
                                                   "</scr\xc4\xb1pt>" };
            static const char* const near_css[] = { "</styl>", "</script>", "</ style>", "< /style>", "<style>",
                                                    "</styles>", "</style-x>", "</STYLE_ ", "</style", "<//style>",
                                                    "</\xc5\xbftyle>" };
            const size_t at = r.below(body.size() + 1);
            if (utf8_boundary(body, at)) {
                body.insert(at, css ? near_css[r.below(11)] : near_js[r.below(11)]);
            }
            body = strip_terminators(std::move(body), name);
        }
        p.set("body", body);
        static const char* const closes_js[] = { "</SCRIPT>", "</script >", "</Script\t\n>", "</script\f>", "</scrIpt\r\n a=b>" };
        static const char* const closes_css[] = { "</STYLE>", "</style >", "</Style\t\n>", "</style\f>", "</stYle\r\n a=b>" };
        p.set("close", string(r.chance(1, 2) ? css ? "</style>" : "</script>"
                                 : css       ? closes_css[r.below(5)]
                                             : closes_js[r.below(5)]));
        if (i + 1 == n && r.chance(1, 5)) {
            p.set("open_end", 1); // the document ends inside the region
        }
        sc.recs.push_back(p);
    }
    Rec run = rec("run");
    run.set("tokcap", i64(gen_cap(r)));
    run.set("flags", i64(flags & 3));
    if (r.chance(1, 3)) {
        run.set("scribble", i64(r.range(1, 3)));
    }
    sc.recs.push_back(run);
}
void exec_c12(const Scenario& sc, Verdict& v)
{
    const Rec* const run = first(sc, "run");
    if (!run) {
        return;
    }
    struct Region {
        size_t begin, end;
        bool css;
    };
    string doc, hollow;
    vector<Region> regions;
    vector<std::pair<u64, u64>> closes;
    for (const auto& r : sc.recs) {
        if (r.kind != "region") {
            continue;
        }
        const bool css = r.i("css") != 0;
        const string name = css ? "style" : "script";
        // The scenario may have been cut down: keep the document's structure intact.
        const string open = r.s("open");
        if (open.size() < name.size() + 2 || open[0] != '<' || open.back() != '>') {
            return;
        }
        if (!r.s("markup").empty() && has_terminator(r.s("markup"), name)) {
            return;
        }
        const string body = strip_terminators(r.s("body"), name);
        doc += r.s("markup") + open;
        hollow += r.s("markup") + open;
        regions.push_back({ doc.size(), doc.size() + body.size(), css });
        doc += body;
        if (!r.i("open_end")) {
            const string close = r.s("close");
            if (!has_terminator(close, name) || close[1] != '/' || close.back() != '>') {
                return;
            }
            closes.emplace_back(doc.size(), doc.size() + close.size());
            doc += close;
            hollow += close;
        }
        else {
            break;
        }
    }
    if (!utf8_valid(doc)) {
        return;
    }
    Req q;
    q.lang = 4;
    q.flags = unsigned(run->i("flags")) & 3u;
    q.src = doc;
    q.tokcap = size_t(std::max<i64>(1, run->i("tokcap", 256)));
    q.scribble = int(run->i("scribble"));
    const Res res = run_logged(q);
    Req hq = q;
    hq.src = hollow;
    hq.scribble = 0;
    Res outer = run_logged(hq);
    const auto judge_elsewhere = [](const Res& x) { return x.status != 0; };
    if (judge_elsewhere(outer)) {
        return;
    }
    vector<u64> edges, seams;
    for (u64 cut = 0; const Region& g : regions) {
        edges.push_back(g.begin);
        edges.push_back(g.end);
        seams.push_back(g.begin - cut);
        cut += g.end - g.begin;
    }
    if (q.flags & 1u) {
        outer.toks = split_at(outer.toks, seams);
    }
    // Expected: the markup's tokens, with each region's own tokens in between.
    vector<Tok> want;
    size_t k = 0;
    u64 shift = 0;
    for (const Region& g : regions) {
        while (k < outer.toks.size() && outer.toks[k].begin + shift < g.begin) {
            Tok t = outer.toks[k++];
            t.begin += shift;
            want.push_back(t);
        }
        Req e = q;
        e.lang = g.css ? ULIGHT_LANG_CSS : ULIGHT_LANG_JAVASCRIPT;
        e.src = doc.substr(g.begin, g.end - g.begin);
        e.tokcap = 333;
        e.scribble = 0;
        const Res inner = run_logged(e);
        if (judge_elsewhere(inner)) {
            if (res.status == 0) {
                v.fail("embedded-differs", "the document succeeds, but its embedded text alone gives "
                    + status_name(inner.status) + because(inner));
            }
            return;
        }
        if (inner.toks.size() > 1024) {
            SIM_HIT("probe:region-over-1024-tokens");
        }
        SIM_HIT(g.css ? "regions:style" : "regions:script");
        for (Tok t : inner.toks) {
            t.begin += g.begin;
            want.push_back(t);
        }
        shift += g.end - g.begin;
    }
    while (k < outer.toks.size()) {
        Tok t = outer.toks[k++];
        t.begin += shift;
        want.push_back(t);
    }
    if (res.status != 0) {
        v.fail("embedded-status", "document gives " + status_name(res.status) + because(res)
            + ", its parts succeed");
        return;
    }
    // Both ends of the end tag belong to it.
    const auto type_at = [&](u64 p) {
        for (const Tok& t : res.toks) {
            if (t.begin <= p && p < t.begin + t.length) {
                return int(t.type);
            }
        }
        return -1;
    };
    for (const auto& [begin, end] : closes) {
        if (type_at(begin) != type_at(end - 1)) {
            v.fail("end-tag-cut-off", "the end tag " + escape_bytes(doc.substr(begin, end - begin)) + " begins with type "
                + std::to_string(type_at(begin)) + " and ends with " + std::to_string(type_at(end - 1)));
            return;
        }
    }
    // Coalescing may merge a region's last token with the end tag.
    const vector<Tok> got = q.flags & 1u ? split_at(res.toks, edges) : res.toks;
    if (got != want) {
        v.fail("embedded-differs", "token buffer " + std::to_string(q.tokcap) + ": "
            + first_diff(got, want, doc));
    }
}
const Reg c12 { { "C12", gen_c12, exec_c12, "body" } };

} // namespace
} // namespace sim
