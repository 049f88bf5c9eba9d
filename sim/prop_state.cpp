// C10: a state is only configuration. Histories of operations on several states against a model.
#include "child.hpp"
#include "gen.hpp"
#include "hl.hpp"
#include "res_pack.hpp"

#include <algorithm>
#include <cstdlib>
#include <new>
#include <optional>
#include <stdexcept>

#include "ulight/ulight.hpp"

namespace sim {
namespace {

constexpr size_t state_count = 3;
constexpr size_t slot_count = 3;
constexpr size_t slot_size = 6000;
constexpr size_t tok_max = 600;
constexpr size_t text_max = 3000;
constexpr size_t name_count = 11;
// Names are read out of one array without terminators.
constexpr char name_chars[] = "spanclassh-data-highlightx" // 26
                              "the-quick-brown-fox-jumps-over-the-lazy-dog-0123456789-and-so-on" // 64 each
                              "The-quick-brown-fox-jumps-over-the-lazy-dog-0123456789-and-so-on"
                              "tHe-quick-brown-fox-jumps-over-the-lazy-dog-0123456789-and-so-on"
                              "thE-quick-brown-fox-jumps-over-the-lazy-dog-0123456789-and-so-on";
static_assert(sizeof name_chars == 26 + 4 * 64 + 1);
struct Name {
    size_t at, len;
};
constexpr Name names[name_count]
    = { { 0, 4 }, { 4, 5 }, { 9, 2 }, { 11, 6 }, { 11, 14 }, { 25, 1 }, { 0, 26 },
        { 26, 64 }, { 26, 129 }, { 26, 256 }, { 0, 282 } };

const int lang_values[] = { 0, 26, 27, 28, 255, 256, 1000, -1, -7, 65536 + 4, 1 << 30 };

void gen_c10(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned ndocs = unsigned(r.range(1, 4));
    const bool same_lang = r.chance(2, 5);
    string first_text;
    u64 last_slot[state_count] {};
    for (unsigned d = 0; d < ndocs; ++d) {
        const bool valid = r.chance(4, 5);
        const Text_Opts o { .max_len = r.chance(1, 8) ? size_t(2500) : size_t(300), .valid_utf8 = valid, .allow_long = false };
        Rec s = src_rec(r, c, int(d), o);
        if (d > 0 && same_lang) {
            const int lang = int(sc.recs[0].i("lang"));
            s.set("lang", lang);
            const string& base = first_text;
            s.set("text", r.chance(2, 5) ? edit_in_place(r, c, lang, base)
                      : r.chance(1, 2)   ? mutate(r, c, lang, base, o)
                                         : gen_text(r, c, lang, o));
        }
        if (d == 0) {
            const auto& words = c.dict[size_t(s.i("lang"))];
            if (same_lang && !words.empty() && r.chance(1, 4)) {
                s.set("text", to_valid_utf8(words[r.below(words.size())])); // a single word
            }
            first_text = s.s("text");
        }
        sc.recs.push_back(s);
        if (r.chance(1, 8)) {
            gen_faults(r, sc, s.s("text"), i64(d), 1);
        }
    }
    const unsigned ns = unsigned(r.range(1, state_count));
    const auto op = [&](const char* name, u64 s) {
        Rec o = rec("op");
        o.set("op", string(name));
        o.set("s", i64(s));
        if (r.chance(1, 3)) {
            o.set("cxx", 1);
        }
        return o;
    };
    const auto set_one = [&](u64 s, const char* field, bool good) {
        Rec o = op(field, s);
        const string f = field;
        if (f == "source") {
            o.set("doc", i64(r.below(ndocs)));
            last_slot[s] = r.chance(1, 2) ? last_slot[s] : r.below(slot_count);
            o.set("slot", i64(last_slot[s]));
            if (!good) {
                o.set("null", 1);
                o.set("len", i64(r.chance(1, 3) ? 0 : r.logu(100)));
            }
        }
        else if (f == "lang") {
            o.set("value", good ? i64(r.chance(3, 4) ? sc.recs[0].i("lang") : gen_lang(r)) : i64(lang_values[r.below(std::size(lang_values))]));
        }
        else if (f == "flags") {
            o.set("value", i64(r.below(4)));
        }
        else if (f == "tokens" || f == "text") {
            o.set("cap", good ? i64(gen_cap(r, f == "tokens" ? tok_max : text_max)) : i64(0));
            if (!good) {
                if (r.chance(1, 2)) {
                    o.set("null", 1);
                }
                if (r.chance(1, 2)) {
                    o.set("cap", i64(r.logu(100)));
                    o.set("null", 1);
                }
            }
        }
        else if (f == "on-tokens" || f == "on-text") {
            o.set("how", good ? i64(r.range(1, 2)) : i64(0));
        }
        else {
            o.set("name", good ? i64(r.below(name_count)) : -1);
            if (!good) {
                o.set("len", i64(r.chance(1, 2) ? 0 : r.logu(20)));
                o.set("null", r.chance(2, 3));
            }
        }
        sc.recs.push_back(std::move(o));
    };
    static const char* const fields[] = { "source", "lang", "flags", "tokens", "text", "on-tokens", "on-text", "tag", "attr" };
    const auto setup = [&](u64 s) {
        vector<int> order { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
        for (size_t k = order.size(); k > 1; --k) {
            std::swap(order[k - 1], order[r.below(k)]);
        }
        for (const int f : order) {
            if (r.chance(f == 2 || f >= 7 ? 1 : 19, f >= 7 || f == 2 ? 3 : 20)) {
                set_one(s, fields[f], r.chance(40, 41));
            }
        }
    };
    for (u64 s = 0; s < ns; ++s) {
        if (r.chance(1, 2)) {
            Rec o = op("create", s);
            o.set("how", i64(r.below(3)));
            o.set("fill", i64(r.below(256)));
            sc.recs.push_back(o);
        }
        if (r.chance(9, 10)) {
            setup(s);
        }
    }
    if (r.chance(1, 25)) {
        // A text, then nothing but short ones until some counter of requests may have come full circle,
        // then the first text in a slightly different form, at the same address.
        const int lang = int(sc.recs[0].i("lang"));
        const auto& words = c.dict[size_t(lang)];
        const string mid = r.chance(1, 3) || words.empty() ? string(r.chance(1, 2) ? "" : " ")
                                                            : to_valid_utf8(words[r.below(words.size())]).substr(0, 12);
        const string texts[] = { mid, edit_in_place(r, c, lang, first_text) };
        for (unsigned d = 0; d < 2; ++d) {
            Rec s = rec("src");
            s.set("doc", i64(ndocs + d));
            s.set("lang", lang);
            s.set("text", texts[d]);
            sc.recs.push_back(s);
        }
        for (const int f : { 1, 3, 4, 5, 6, 7, 8 }) {
            set_one(0, fields[f], true);
        }
        Rec l = op("lang", 0);
        l.set("value", i64(lang));
        sc.recs.push_back(l);
        const u64 slot = r.below(slot_count);
        const auto ask = [&](unsigned doc, u64 at, i64 times) {
            Rec src = op("source", 0);
            src.set("doc", i64(doc));
            src.set("slot", i64(at));
            sc.recs.push_back(src);
            Rec o = op(r.chance(1, 4) ? "html" : "to-tokens", 0);
            if (times > 1) {
                o.set("times", times);
            }
            sc.recs.push_back(o);
        };
        ask(0, slot, r.range(1, 2));
        const i64 round = r.chance(1, 40) ? 65536 : r.chance(1, 6) ? 128 : 256;
        ask(ndocs, r.below(slot_count), round - 1 + (r.chance(2, 3) ? 0 : i64(r.below(5)) - 2));
        ask(ndocs + 1, slot, 1);
    }
    const unsigned n = unsigned(r.logu(24)) + 1;
    for (unsigned k = 0; k < n; ++k) {
        const u64 s = r.below(ns);
        const u64 what = r.below(100);
        if (what < 50) {
            Rec o = op(r.chance(2, 5) ? "html" : "to-tokens", s);
            if (r.chance(1, 10)) {
                o.set("fail_at", i64(r.logu(12) - 1));
                o.set("exc", i64(r.below(exc_count)));
            }
            if (r.chance(1, 12)) {
                o.set("alloc_fail", i64(r.logu(6) - 1));
            }
            if (r.chance(1, 6)) {
                o.set("scribble", i64(r.range(1, 3)));
            }
            if (r.chance(1, 40)) {
                o.set("times", r.chance(1, 2) ? i64(r.range(253, 258)) : i64(r.logu(300))); // counters of eight bits wrap around
            }
            sc.recs.push_back(o);
        }
        else if (what < 62) {
            // The text is edited where it is, and highlighted again.
            set_one(s, "source", true);
            sc.recs.push_back(op(r.chance(2, 5) ? "html" : "to-tokens", s));
        }
        else if (what < 65) {
            Rec o = op("lookup", s);
            gen_lookup(r, c, o);
            sc.recs.push_back(o);
        }
        else if (what < 90) {
            set_one(s, fields[r.below(9)], r.chance(3, 4));
            // often repaired soon
        }
        else if (what < 94) {
            Rec o = op("create", s);
            o.set("how", i64(r.below(3)));
            o.set("fill", i64(r.below(256)));
            sc.recs.push_back(o);
            setup(s);
        }
        else if (what < 97) {
            Rec o = op("copy", s);
            o.set("from", i64(r.below(ns)));
            sc.recs.push_back(o);
        }
        else {
            setup(s);
        }
    }
}

struct World;

/// What one state's callbacks belong to.
struct Owner {
    World* w;
    size_t s;
    void operator()(ulight_token* t, size_t n);
    void operator()(char* t, size_t n);
};

struct World {
    const Scenario& sc;
    Verdict& v;
    char* slots[slot_count] {};
    ulight_token* toks[state_count] {};
    char* texts[state_count] {};
    struct St {
        ulight_state* st = nullptr;
        int how = 0;
        ulight_state model {};
        bool text_known = false;
        string text; // the error text when the last request on this state returned
    } states[state_count];
    Owner owners[state_count];

    // the request in progress
    int active = -1;
    bool active_html = false;
    Res* res = nullptr;
    size_t call = 0;
    i64 fail_at = -1;
    int exc = 0;
    int scribble = 0;

    struct Done {
        Req req;
        Res res;
        bool comparable = true;
        size_t op;
    };
    vector<Done> done;

    World(const Scenario& s, Verdict& vv)
        : sc(s)
        , v(vv)
    {
        for (auto& p : slots) {
            p = static_cast<char*>(std::malloc(slot_size));
            std::memset(p, ' ', slot_size);
        }
        for (size_t i = 0; i < state_count; ++i) {
            toks[i] = static_cast<ulight_token*>(std::malloc(tok_max * sizeof(ulight_token)));
            texts[i] = static_cast<char*>(std::malloc(text_max));
            owners[i] = { this, i };
            create(i, 0, 0xcd);
        }
    }
    ~World()
    {
        for (auto* p : slots) {
            std::free(p);
        }
        for (size_t i = 0; i < state_count; ++i) {
            std::free(toks[i]);
            std::free(texts[i]);
            end(i);
        }
    }

    void end(size_t i)
    {
        St& s = states[i];
        if (s.st == nullptr) {
            return;
        }
        if (s.how == 1) {
            ulight_delete(s.st);
        }
        else {
            ulight_destroy(s.st);
            std::free(s.st);
        }
        s.st = nullptr;
    }

    void create(size_t i, int how, int fill)
    {
        end(i);
        St& s = states[i];
        s.text_known = false;
        s.how = how;
        if (how == 1) {
            s.st = ulight_new();
            if (s.st == nullptr) {
                v.fail("no-state", "ulight_new returned null although memory is available");
                s.how = 0;
                s.st = static_cast<ulight_state*>(std::calloc(1, sizeof(ulight_state)));
                return;
            }
        }
        else {
            void* const mem = std::malloc(sizeof(ulight::State));
            std::memset(mem, fill, sizeof(ulight::State));
            if (how == 2) {
                s.st = &(new (mem) ulight::State)->impl;
            }
            else {
                s.st = static_cast<ulight_state*>(mem);
                if (ulight_init(s.st) != s.st) {
                    v.fail("init-result", "ulight_init did not return its argument");
                }
            }
        }
        const ulight_state& st = *s.st;
        string bad;
        const auto want = [&](const char* name, bool ok) {
            if (!ok) {
                bad += string(bad.empty() ? "" : ", ") + name;
            }
        };
        want("source", st.source == nullptr && st.source_length == 0);
        want("lang", int(st.lang) == 0);
        want("flags", int(st.flags) == 0);
        want("token_buffer", st.token_buffer == nullptr && st.token_buffer_length == 0);
        want("flush_tokens", st.flush_tokens == nullptr && st.flush_tokens_data == nullptr);
        want("html_tag_name", st.html_tag_name && string_view(st.html_tag_name, st.html_tag_name_length) == "h-");
        want("html_attr_name", st.html_attr_name && string_view(st.html_attr_name, st.html_attr_name_length) == "data-h");
        want("text_buffer", st.text_buffer == nullptr && st.text_buffer_length == 0);
        want("flush_text", st.flush_text == nullptr && st.flush_text_data == nullptr);
        want("error", st.error == nullptr && st.error_length == 0);
        if (!bad.empty()) {
            v.fail("wrong-default", "not the documented default after creation: " + bad);
        }
        s.model = st;
    }

    /// Every field of every state must be what the model says.
    bool check(const string& after)
    {
        for (size_t i = 0; i < state_count; ++i) {
            const ulight_state& a = *states[i].st;
            const ulight_state& m = states[i].model;
            string bad;
            const auto cmp = [&](const char* name, bool ok) {
                if (!ok) {
                    bad += string(bad.empty() ? "" : ", ") + name;
                }
            };
#define CMP(f) cmp(#f, a.f == m.f)
            CMP(source);
            CMP(source_length);
            CMP(lang);
            CMP(flags);
            CMP(token_buffer);
            CMP(token_buffer_length);
            CMP(flush_tokens);
            CMP(flush_tokens_data);
            CMP(html_tag_name);
            CMP(html_tag_name_length);
            CMP(html_attr_name);
            CMP(html_attr_name_length);
            CMP(text_buffer);
            CMP(text_buffer_length);
            CMP(flush_text);
            CMP(flush_text_data);
            CMP(error);
            CMP(error_length);
#undef CMP
            if (!bad.empty()) {
                v.fail("state-changed", "after " + after + ": state " + std::to_string(i) + " differs from the model in " + bad);
                return false;
            }
            if (states[i].text_known && states[i].text != string_view(a.error, a.error_length)) {
                v.fail("state-changed", "after " + after + ": the error text of state " + std::to_string(i) + " changed from \"" + states[i].text + "\"");
                return false;
            }
            // The C++ view of the same state.
            const auto& x = reinterpret_cast<const ulight::State&>(a);
            cmp("get_source", x.get_source().data() == m.source && x.get_source().size() == m.source_length);
            cmp("get_u8source", (const void*)x.get_u8source().data() == (const void*)m.source && x.get_u8source().size() == m.source_length);
            cmp("get_lang", x.get_lang() == ulight::Lang(m.lang));
            cmp("get_flags", x.get_flags() == ulight::Flag(m.flags));
            cmp("get_token_buffer", x.get_token_buffer().data() == m.token_buffer && x.get_token_buffer().size() == m.token_buffer_length);
            cmp("get_text_buffer", x.get_text_buffer().data() == m.text_buffer && x.get_text_buffer().size() == m.text_buffer_length);
            cmp("get_text_u8buffer", (void*)x.get_text_u8buffer().data() == (void*)m.text_buffer && x.get_text_u8buffer().size() == m.text_buffer_length);
            cmp("get_text_buffer_string", x.get_text_buffer_string().data() == m.text_buffer && x.get_text_buffer_string().size() == m.text_buffer_length);
            cmp("get_text_buffer_u8string", (const void*)x.get_text_buffer_u8string().data() == (const void*)m.text_buffer && x.get_text_buffer_u8string().size() == m.text_buffer_length);
            cmp("get_error_string", x.get_error_string().data() == m.error && x.get_error_string().size() == m.error_length);
            cmp("get_error_u8string", (const void*)x.get_error_u8string().data() == (const void*)m.error && x.get_error_u8string().size() == m.error_length);
            if (!bad.empty()) {
                v.fail("getter", "after " + after + ": state " + std::to_string(i) + " does not report its configuration: " + bad);
                return false;
            }
        }
        return true;
    }

    template <typename T>
    void on_call(size_t s, T* t, size_t n)
    {
        bool fail_now = false;
        {
            const Alloc_Pause pause;
            constexpr bool is_text = sizeof(T) == 1;
            if (active < 0) {
                fatal("callback-after-return", "a callback ran although no request is in progress");
            }
            const ulight_state& m = states[active].model;
            const size_t k = call++;
            const auto bad = [&](const char* what) {
                if (res->proto.empty()) {
                    res->proto = what;
                }
            };
            T* const buf = is_text ? reinterpret_cast<T*>(m.text_buffer) : reinterpret_cast<T*>(m.token_buffer);
            const size_t cap = is_text ? m.text_buffer_length : m.token_buffer_length;
            const void* const own = is_text ? m.flush_text_data : m.flush_tokens_data;
            if (own != static_cast<const void*>(&owners[s])) {
                bad("the callback of another state was invoked");
            }
            else if (is_text != active_html) {
                bad("the wrong kind of callback was invoked");
            }
            else if (t != buf || n > cap) {
                bad("a callback was not handed the state's own buffer");
            }
            else {
                res->calls.push_back(n);
                fail_now = i64(k) == fail_at;
                if (!fail_now) {
                    for (size_t i = 0; i < n; ++i) {
                        if constexpr (is_text) {
                            res->text += t[i];
                        }
                        else {
                            res->toks.push_back({ t[i].begin, t[i].length, t[i].type });
                        }
                    }
                }
                if (scribble) {
                    std::memset(static_cast<void*>(t), scribble == 1 ? 0 : scribble == 2 ? 0xff : 0x5a, cap * sizeof(T));
                }
            }
            if (g_log) {
                g_log->ev("flush", k, n);
            }
        }
        if (fail_now) {
            const Alloc_Pause pause;
            res->threw = true;
            throw_as(exc, "consumer");
        }
    }

    static void tokens_c(const void* d, ulight_token* t, size_t n)
    {
        auto* const o = const_cast<Owner*>(static_cast<const Owner*>(d));
        o->w->on_call(o->s, t, n);
    }
    static void text_c(const void* d, char* t, size_t n)
    {
        auto* const o = const_cast<Owner*>(static_cast<const Owner*>(d));
        o->w->on_call(o->s, t, n);
    }

    string doc_text(i64 doc) const
    {
        Rec tmp = rec("run");
        tmp.set("doc", doc);
        string s = req_from(tmp, sc).src;
        if (s.size() > slot_size) {
            s.resize(slot_size);
        }
        return s;
    }

    void request(size_t i, const Rec& o, size_t op_index)
    {
        St& s = states[i];
        ulight_state& m = s.model;
        const bool html = o.s("op") == "html";
        // What may it say?
        vector<int> bad;
        string why;
        const auto misconfigured = [&](bool cond, int status, const char* what) {
            if (cond) {
                bad.push_back(status);
                why += string(why.empty() ? "" : ", ") + what;
            }
        };
        misconfigured(m.source == nullptr && m.source_length != 0, ULIGHT_STATUS_BAD_STATE, "null source with a length");
        misconfigured(m.token_buffer == nullptr || m.token_buffer_length == 0, ULIGHT_STATUS_BAD_BUFFER, "no token buffer");
        misconfigured(int(m.lang) <= 0 || int(m.lang) >= ULIGHT_LANG_COUNT, ULIGHT_STATUS_BAD_LANG, "no language");
        if (html) {
            misconfigured(m.text_buffer == nullptr || m.text_buffer_length == 0, ULIGHT_STATUS_BAD_BUFFER, "no text buffer");
            misconfigured(m.flush_text == nullptr, ULIGHT_STATUS_BAD_BUFFER, "no text callback");
            misconfigured(m.html_tag_name == nullptr || m.html_tag_name_length == 0, ULIGHT_STATUS_BAD_STATE, "no tag name");
            misconfigured(m.html_attr_name == nullptr || m.html_attr_name_length == 0, ULIGHT_STATUS_BAD_STATE, "no attribute name");
        }
        else {
            misconfigured(m.flush_tokens == nullptr, ULIGHT_STATUS_BAD_BUFFER, "no token callback");
        }

        Done d;
        d.op = op_index;
        d.req.lang = int(m.lang);
        d.req.flags = unsigned(m.flags);
        d.req.html = html;
        if (m.source != nullptr) {
            d.req.src.assign(m.source, m.source_length);
        }
        d.req.tokcap = m.token_buffer_length;
        d.req.textcap = m.text_buffer_length;
        if (bad.empty() && html) {
            d.req.tag.assign(m.html_tag_name, m.html_tag_name_length);
            d.req.attr.assign(m.html_attr_name, m.html_attr_name_length);
        }
        d.req.fail_at = o.i("fail_at", -1);
        d.req.exc = int(o.i("exc"));
        d.req.scribble = int(o.i("scribble"));

        active = int(i);
        active_html = html;
        res = &d.res;
        call = 0;
        fail_at = d.req.fail_at;
        exc = d.req.exc;
        scribble = d.req.scribble;
        const i64 alloc_fail = o.i("alloc_fail", -1);
        Clock::arm(default_step_limit(d.req));
        if (alloc_fail >= 0) {
            alloc_arm(alloc_fail, 1);
        }
        int status;
        if (o.i("cxx")) {
            auto* const x = reinterpret_cast<ulight::State*>(s.st);
            status = int(html ? x->source_to_html() : x->source_to_tokens());
        }
        else {
            status = int(html ? ulight_source_to_html(s.st) : ulight_source_to_tokens(s.st));
        }
        if (alloc_fail >= 0) {
            if (g_alloc.failed) {
                SIM_HIT("allocation-fails");
                d.comparable = false;
            }
            alloc_disarm();
        }
        Clock::disarm();
        active = -1;
        res = nullptr;
        d.res.status = status;
        g_stats.hit(html ? "requests:html" : "requests:tokens");
        const string what = "operation " + std::to_string(op_index) + " (" + o.s("op") + " on state " + std::to_string(i) + ", lang " + std::to_string(int(m.lang)) + ")";
        if (!d.res.proto.empty()) {
            v.fail("protocol", what + ": " + d.res.proto);
            return;
        }
        // Only the error text may have changed.
        m.error = s.st->error;
        m.error_length = s.st->error_length;
        s.text_known = m.error != nullptr;
        s.text.assign(m.error ? m.error : "", m.error ? m.error_length : 0);
        if (status != 0) {
            if (m.error == nullptr || m.error_length == 0) {
                v.fail("no-error-text", what + " returned status " + std::to_string(status) + " without a message");
                return;
            }
            d.res.error.assign(m.error, m.error_length);
            if (!utf8_valid(d.res.error)) {
                v.fail("no-error-text", what + ": the error text is not UTF-8");
                return;
            }
        }
        if (!bad.empty()) {
            SIM_HIT("probe:misconfigured-request");
            if (std::find(bad.begin(), bad.end(), status) == bad.end()) {
                v.fail("wrong-rejection", what + " is misconfigured (" + why + "), but the status is " + std::to_string(status));
            }
            else if (call != 0) {
                v.fail("wrong-rejection", what + " is misconfigured (" + why + "), but a callback ran");
            }
            return;
        }
        SIM_HIT("probe:accepted-request");
        if (status == ULIGHT_STATUS_BAD_BUFFER || status == ULIGHT_STATUS_BAD_LANG || status == ULIGHT_STATUS_BAD_STATE) {
            v.fail("wrong-rejection", what + " is configured correctly, but was rejected with status " + std::to_string(status) + ": " + d.res.error);
            return;
        }
        if (g_log) {
            log_res(d.res);
        }
        done.push_back(std::move(d));
    }

    void set(size_t i, const Rec& o)
    {
        St& s = states[i];
        ulight_state& st = *s.st;
        ulight_state& m = s.model;
        auto& x = reinterpret_cast<ulight::State&>(st);
        const bool cxx = o.i("cxx") != 0;
        const string& op = o.s("op");
        if (op == "source") {
            const size_t slot = size_t(o.i("slot")) % slot_count;
            if (o.i("null")) {
                m.source = nullptr;
                m.source_length = size_t(o.i("len"));
            }
            else {
                const string t = doc_text(o.i("doc"));
                std::memcpy(slots[slot], t.data(), t.size());
                m.source = slots[slot];
                m.source_length = t.size();
            }
            if (cxx && m.source != nullptr) {
                if (o.i("doc") & 1) {
                    x.set_source(std::u8string_view(reinterpret_cast<const char8_t*>(m.source), m.source_length));
                }
                else {
                    x.set_source(string_view(m.source, m.source_length));
                }
            }
            else {
                st.source = m.source;
                st.source_length = m.source_length;
            }
        }
        else if (op == "lang") {
            m.lang = ulight_lang(o.i("value"));
            if (cxx) {
                if (o.i("value") & 1 && o.i("value") > 0 && o.i("value") < 256) {
                    x.set_lang(ulight::Lang(o.i("value")));
                }
                else {
                    x.set_lang(ulight_lang(o.i("value")));
                }
            }
            else {
                st.lang = m.lang;
            }
        }
        else if (op == "flags") {
            m.flags = ulight_flag(o.i("value"));
            if (cxx) {
                if (o.i("value") & 1) {
                    x.set_flags(ulight::Flag(o.i("value")));
                }
                else {
                    x.set_flags(ulight_flag(o.i("value")));
                }
            }
            else {
                st.flags = m.flags;
            }
        }
        else if (op == "tokens") {
            m.token_buffer = o.i("null") ? nullptr : toks[i];
            m.token_buffer_length = std::min(size_t(o.i("cap")), tok_max);
            if (cxx && (m.token_buffer || !m.token_buffer_length)) {
                x.set_token_buffer({ m.token_buffer, m.token_buffer_length });
            }
            else {
                st.token_buffer = m.token_buffer;
                st.token_buffer_length = m.token_buffer_length;
            }
        }
        else if (op == "text") {
            m.text_buffer = o.i("null") ? nullptr : texts[i];
            m.text_buffer_length = std::min(size_t(o.i("cap")), text_max);
            if (cxx && (m.text_buffer || !m.text_buffer_length)) {
                x.set_text_buffer({ m.text_buffer, m.text_buffer_length });
            }
            else {
                st.text_buffer = m.text_buffer;
                st.text_buffer_length = m.text_buffer_length;
            }
        }
        else if (op == "on-tokens") {
            if (o.i("how") == 0) {
                m.flush_tokens = nullptr;
                m.flush_tokens_data = nullptr;
                st.flush_tokens = nullptr;
                st.flush_tokens_data = nullptr;
            }
            else if (cxx) {
                const ulight::Function_Ref<void(ulight_token*, size_t)> f { owners[i] };
                m.flush_tokens = f.get_invoker();
                m.flush_tokens_data = &owners[i];
                x.on_flush_tokens(f);
            }
            else {
                m.flush_tokens = tokens_c;
                m.flush_tokens_data = &owners[i];
                st.flush_tokens = tokens_c;
                st.flush_tokens_data = &owners[i];
            }
        }
        else if (op == "on-text") {
            if (o.i("how") == 0) {
                m.flush_text = nullptr;
                m.flush_text_data = nullptr;
                st.flush_text = nullptr;
                st.flush_text_data = nullptr;
            }
            else if (cxx && o.i("how") == 2) {
                const ulight::Function_Ref<void(char*, size_t)> f { owners[i] };
                m.flush_text = f.get_invoker();
                m.flush_text_data = &owners[i];
                x.on_flush_text(f);
            }
            else {
                m.flush_text = text_c;
                m.flush_text_data = &owners[i];
                if (cxx) {
                    x.on_flush_text(&owners[i], text_c);
                }
                else {
                    st.flush_text = text_c;
                    st.flush_text_data = &owners[i];
                }
            }
        }
        else { // tag, attr
            const char* p = nullptr;
            size_t n = 0;
            if (o.i("name") >= 0) {
                const Name& nm = names[size_t(o.i("name")) % name_count];
                p = name_chars + nm.at;
                n = nm.len;
            }
            else {
                p = o.i("null") ? nullptr : name_chars;
                n = o.i("null") ? size_t(o.i("len")) : 0;
            }
            const bool via = cxx && (p != nullptr || n == 0);
            if (op == "tag") {
                m.html_tag_name = p;
                m.html_tag_name_length = n;
                if (via) {
                    x.set_html_tag_name({ p, n });
                }
                else {
                    st.html_tag_name = p;
                    st.html_tag_name_length = n;
                }
            }
            else {
                m.html_attr_name = p;
                m.html_attr_name_length = n;
                if (via) {
                    x.set_html_attr_name({ p, n });
                }
                else {
                    st.html_attr_name = p;
                    st.html_attr_name_length = n;
                }
            }
        }
    }

    void run()
    {
        if (!v.ok || !check("creation")) {
            return;
        }
        size_t k = 0;
        for (const auto& o : sc.recs) {
            if (o.kind != "op") {
                continue;
            }
            const size_t i = size_t(o.i("s")) % state_count;
            const string& op = o.s("op");
            if (g_log) {
                g_log->ev_str("op", op);
            }
            if (op == "create") {
                create(i, int(o.i("how")), int(o.i("fill")));
            }
            else if (op == "copy") {
                const size_t from = size_t(o.i("from")) % state_count;
                *states[i].st = *states[from].st;
                states[i].model = states[from].model;
                states[i].text_known = states[i].text_known && i == from;
            }
            else if (op == "html" || op == "to-tokens") {
                // Many times in a row: what every request leaves behind adds up.
                const i64 times = std::clamp<i64>(o.i("times", 1), 1, 66000);
                for (i64 t = 0; t < times && v.ok; ++t) {
                    const size_t before = done.size();
                    request(i, o, k);
                    if (t > 0 && t + 1 < times) {
                        done.resize(std::min(done.size(), before));
                    }
                }
                if (times > 1) {
                    SIM_HIT("probe:repeated-requests");
                }
            }
            else if (op == "lookup") {
                Done d;
                d.op = k;
                d.req = req_from(o, sc);
                d.res = run_fresh(d.req);
                g_stats.hit("requests:lookups");
                done.push_back(std::move(d));
            }
            else {
                set(i, o);
            }
            if (!v.ok || !check("operation " + std::to_string(k) + " (" + op + ")")) {
                return;
            }
            ++k;
        }
    }
};

void Owner::operator()(ulight_token* t, size_t n)
{
    w->on_call(s, t, n);
}
void Owner::operator()(char* t, size_t n)
{
    w->on_call(s, t, n);
}

void pack_req(Packer& p, const Req& q)
{
    p.num(u64(q.lang));
    p.num(q.flags);
    p.num(q.html);
    p.str(q.src);
    p.num(q.tokcap);
    p.num(q.textcap);
    p.str(q.tag);
    p.str(q.attr);
    p.num(u64(q.fail_at));
    p.num(u64(q.exc));
    p.num(u64(q.scribble));
    p.num(u64(i64(q.lookup)));
}
Req unpack_req(Unpacker& u)
{
    Req q;
    q.lang = int(u.num());
    q.flags = unsigned(u.num());
    q.html = u.num() != 0;
    q.src = u.str();
    q.tokcap = u.num();
    q.textcap = u.num();
    q.tag = u.str();
    q.attr = u.str();
    q.fail_at = i64(u.num());
    q.exc = int(u.num());
    q.scribble = int(u.num());
    q.lookup = int(i64(u.num()));
    return q;
}

void exec_c10(const Scenario& sc, Verdict& v)
{
    const string history = in_child(sc.cold, [&](string& out) {
        Verdict inner;
        World w { sc, inner };
        w.run();
        Packer p { out };
        p.num(inner.ok);
        p.str(inner.cls);
        p.str(inner.detail);
        for (const auto& d : w.done) {
            if (d.comparable) {
                p.num(d.op);
                pack_req(p, d.req);
                pack(p, d.res);
            }
        }
    });
    Unpacker u { history };
    if (u.num() == 0) {
        const string cls = u.str();
        v.fail(cls, u.str());
        return;
    }
    u.str();
    u.str();
    struct Item {
        size_t op;
        Req q;
        Res r;
    };
    vector<Item> items;
    while (u.p < u.in.size() && !u.bad) {
        Item it;
        it.op = u.num();
        it.q = unpack_req(u);
        it.r = unpack_res(u);
        items.push_back(std::move(it));
    }
    // The same requests, each on a fresh state, in another process, last one first.
    const string again = in_child(sc.cold, [&](string& out) {
        Packer p { out };
        for (size_t k = items.size(); k-- > 0;) {
            const Res r = run_fresh(items[k].q);
            pack(p, r);
        }
    });
    Unpacker a { again };
    for (size_t k = items.size(); k-- > 0;) {
        const Res r = unpack_res(a);
        const Item& it = items[k];
        const string d = res_diff(r, it.r, it.q.src);
        if (!d.empty()) {
            v.fail("history-changed-result", "operation " + std::to_string(it.op) + " (lang " + std::to_string(it.q.lang) + "), fresh vs here: " + d);
            return;
        }
    }
}
const Reg c10 { { "C10", gen_c10, exec_c10, "text" } };

} // namespace
} // namespace sim
