#include "hl.hpp"

#include <cstdlib>
#include <new>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <typeinfo>

#include "ulight/ulight.hpp"

namespace sim {

namespace {
struct Thrown {
    int x;
};
struct Own_Exception : std::exception {
    const char* what() const noexcept override { return "own"; }
};
} // namespace

void throw_as(int exc, const char* who)
{
    static const char* const names[] = {
        "runtime_error", "bad_alloc", "int", "struct", "invalid_argument", "out_of_range", "length_error",
        "system_error", "bad_optional_access", "string", "exception", "bad_cast"
    };
    static_assert(std::size(names) == exc_count);
    exc = unsigned(exc) % exc_count;
    g_stats.hit((string(who) + "-throws-" + names[exc]).c_str());
    switch (exc) {
    case exc_bad_alloc: throw std::bad_alloc();
    case exc_int: throw 42;
    case exc_struct: throw Thrown { 1 };
    case exc_invalid_argument: throw std::invalid_argument(who);
    case exc_out_of_range: throw std::out_of_range(who);
    case exc_length_error: throw std::length_error(who);
    case exc_system_error: throw std::system_error(std::make_error_code(std::errc::no_space_on_device));
    case exc_bad_optional_access: throw std::bad_optional_access();
    case exc_string: throw who;
    case exc_exception: throw Own_Exception {};
    case exc_bad_cast: throw std::bad_cast();
    default: throw std::runtime_error(who);
    }
}

int thrown_kind()
{
    try {
        throw;
    } catch (const std::bad_alloc&) {
        return exc_bad_alloc;
    } catch (int) {
        return exc_int;
    } catch (const Thrown&) {
        return exc_struct;
    } catch (const std::invalid_argument&) {
        return exc_invalid_argument;
    } catch (const std::out_of_range&) {
        return exc_out_of_range;
    } catch (const std::length_error&) {
        return exc_length_error;
    } catch (const std::system_error&) {
        return exc_system_error;
    } catch (const std::bad_optional_access&) {
        return exc_bad_optional_access;
    } catch (const char*) {
        return exc_string;
    } catch (const Own_Exception&) {
        return exc_exception;
    } catch (const std::bad_cast&) {
        return exc_bad_cast;
    } catch (const std::runtime_error&) {
        return exc_runtime;
    } catch (...) {
        return -1;
    }
}

namespace {

struct Exact { // exact-size block: the sanitizer sees any access one byte outside
    char* p;
    size_t n;
    explicit Exact(size_t size)
        : p(static_cast<char*>(std::malloc(size)))
        , n(size)
    {
    }
    ~Exact() { std::free(p); }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
};
} // namespace

struct Client::Sink {
    const Req* req = nullptr;
    Res* res = nullptr;
    ulight_token* tbuf = nullptr;
    char* xbuf = nullptr;
    bool active = false;
    size_t call = 0;

    void violation(string s)
    {
        if (res->proto.empty()) {
            res->proto = std::move(s);
        }
    }
    void common(size_t n, size_t cap, bool right_buffer)
    {
        const size_t k = call++;
        if (!active) {
            fatal("callback-after-return", "a callback ran although no request is in progress");
        }
        if (res->threw) {
            violation("a callback ran after an earlier callback of the request had failed");
        }
        if (!right_buffer) {
            violation("callback was not handed the caller's buffer");
        }
        if (n == 0) {
            violation("callback was handed zero elements");
        }
        if (n > cap) {
            violation("callback was handed more elements than the buffer has");
        }
        if (!res->calls.empty() && res->calls.back() != cap) {
            violation(
                "callback " + std::to_string(k - 1) + " was handed "
                + std::to_string(res->calls.back()) + " of " + std::to_string(cap)
                + " elements, but it was not the last one"
            );
        }
        res->calls.push_back(n);
        if (res->calls.size() > 50'000'000) {
            fatal("hang", "more than 50 million callbacks");
        }
        if (g_log) {
            g_log->ev("flush", k, n);
        }
        if (req->at_call) {
            req->at_call(k);
        }
    }
    void maybe_throw()
    {
        if (req->fail_at >= 0 && i64(call) - 1 == req->fail_at) {
            res->threw = true;
            if (g_log) {
                g_log->ev("consumer-fails", call - 1, u64(req->exc));
            }
            throw_as(req->exc, "consumer");
        }
    }
    void on_tokens(ulight_token* t, size_t n)
    {
        bool do_throw = false;
        {
            const Alloc_Pause pause;
            common(n, req->tokcap, t == tbuf);
            do_throw = req->fail_at >= 0 && i64(call) - 1 == req->fail_at;
            if (n <= req->tokcap && t == tbuf && !do_throw) {
                for (size_t i = 0; i < n; ++i) {
                    res->toks.push_back({ t[i].begin, t[i].length, t[i].type });
                }
            }
            if (req->scribble && t == tbuf) {
                std::memset(
                    static_cast<void*>(t), req->scribble == 1 ? 0 : req->scribble == 2 ? 0xff : 0x5a,
                    req->tokcap * sizeof(ulight_token)
                );
            }
        }
        yield_point();
        if (do_throw) {
            const Alloc_Pause pause;
            maybe_throw();
        }
    }
    void on_text(char* t, size_t n)
    {
        bool do_throw = false;
        {
            const Alloc_Pause pause;
            common(n, req->textcap, t == xbuf);
            do_throw = req->fail_at >= 0 && i64(call) - 1 == req->fail_at;
            if (n <= req->textcap && t == xbuf && !do_throw) {
                res->text.append(t, n);
            }
            if (req->scribble && t == xbuf) {
                std::memset(
                    t, req->scribble == 1 ? 0 : req->scribble == 2 ? 0xff : 0x5a, req->textcap
                );
            }
        }
        yield_point();
        if (do_throw) {
            const Alloc_Pause pause;
            maybe_throw();
        }
    }
};

namespace {
vector<Client::Sink*> g_live_sinks;

Client::Sink& check_sink(const void* data)
{
    for (Client::Sink* const s : g_live_sinks) {
        if (s == data) {
            return *s;
        }
    }
    fatal("foreign-data-pointer", "a callback was handed a data pointer that is not the caller's");
}
void tokens_cb(const void* data, ulight_token* t, size_t n)
{
    check_sink(data).on_tokens(t, n);
}
void text_cb(const void* data, char* t, size_t n)
{
    check_sink(data).on_text(t, n);
}
} // namespace

u64 default_step_limit(size_t n)
{
    return 400'000 + 8'000 * u64(n) + 20 * u64(n) * u64(n);
}
u64 default_step_limit(const Req& r)
{
    const u64 names = u64(2 * r.tag.size() + r.attr.size());
    return default_step_limit(r.src.size()) + 60 * names * (u64(r.src.size()) + 1);
}

Client::Client()
    : m_state(static_cast<ulight_state*>(std::malloc(sizeof(ulight_state))))
{
    std::memset(static_cast<void*>(m_state), 0xcd, sizeof(ulight_state));
    ulight_init(m_state);
}
Client::Client(bool via_new)
    : m_state(nullptr)
    , m_new(via_new)
{
    if (via_new) {
        m_state = ulight_new();
    }
    else {
        m_state = static_cast<ulight_state*>(std::malloc(sizeof(ulight_state)));
        std::memset(static_cast<void*>(m_state), 0xcd, sizeof(ulight_state));
        ulight_init(m_state);
    }
}
Client::~Client()
{
    if (m_new) {
        ulight_delete(m_state);
    }
    else {
        ulight_destroy(m_state);
        std::free(m_state);
    }
}

Res Client::request(const Req& r)
{
    if (r.lookup >= 0) {
        Res res;
        res.status = 0;
        res.text = do_lookup(r.lookup, r.src, r.lang, r.after);
        return res;
    }
    Res res;
    Sink sink;
    bool was_active = g_alloc.active;
    g_alloc.active = false;

    Exact src_mem { r.before.size() + r.src.size() + r.after.size() };
    if (!r.before.empty()) {
        std::memcpy(src_mem.p, r.before.data(), r.before.size());
    }
    if (!r.src.empty()) {
        std::memcpy(src_mem.p + r.before.size(), r.src.data(), r.src.size());
    }
    if (!r.after.empty()) {
        std::memcpy(src_mem.p + r.before.size() + r.src.size(), r.after.data(), r.after.size());
    }
    const Exact tok_mem { r.tokcap * sizeof(ulight_token) };
    const Exact text_mem { r.html ? r.textcap : 1 };
    std::memset(tok_mem.p, 0xa5, tok_mem.n);
    std::memset(text_mem.p, 0xa5, text_mem.n);
    const string tag_block = r.tag + r.name_after, attr_block = r.attr + r.name_after;
    const Exact tag_mem { tag_block.size() };
    const Exact attr_mem { attr_block.size() };
    if (!tag_block.empty()) {
        std::memcpy(tag_mem.p, tag_block.data(), tag_block.size());
    }
    if (!attr_block.empty()) {
        std::memcpy(attr_mem.p, attr_block.data(), attr_block.size());
    }

    sink.req = &r;
    sink.res = &res;
    sink.tbuf = reinterpret_cast<ulight_token*>(tok_mem.p);
    sink.xbuf = text_mem.p;

    ulight_state& st = *m_state;
    st.source = src_mem.p + r.before.size();
    st.source_length = r.src.size();
    st.lang = ulight_lang(r.lang);
    st.flags = ulight_flag(r.flags);
    st.token_buffer = sink.tbuf;
    st.token_buffer_length = r.tokcap;
    if (!r.tag.empty()) {
        st.html_tag_name = tag_mem.p;
        st.html_tag_name_length = r.tag.size();
    }
    if (!r.attr.empty()) {
        st.html_attr_name = attr_mem.p;
        st.html_attr_name_length = r.attr.size();
    }
    if (r.html) {
        st.text_buffer = sink.xbuf;
        st.text_buffer_length = r.textcap;
        st.flush_text = text_cb;
        st.flush_text_data = &sink;
        // "`state->flush_tokens` is automatically set."
    }
    else {
        st.flush_tokens = tokens_cb;
        st.flush_tokens_data = &sink;
    }
    const ulight_state snapshot = st;
    g_live_sinks.push_back(&sink);
    sink.active = true;
    g_last_assert.clear();
    const u64 t0 = Clock::now();
    if (!in_task()) {
        Clock::arm(r.step_limit ? r.step_limit : default_step_limit(r));
    }
    g_alloc.active = was_active;
    int status;
    if (r.cxx) {
        // ulight::State is a trivially copyable wrapper around the same state.
        auto* const s = reinterpret_cast<ulight::State*>(m_state);
        status = int(r.html ? s->source_to_html() : s->source_to_tokens());
    }
    else {
        status = int(r.html ? ulight_source_to_html(m_state) : ulight_source_to_tokens(m_state));
    }
    was_active = g_alloc.active;
    g_alloc.active = false;
    if (!in_task()) {
        Clock::disarm();
    }
    res.steps = Clock::now() - t0;
    sink.active = false;
    res.status = status;
    res.assert_text = g_last_assert;
    for (size_t i = 0; i < g_live_sinks.size(); ++i) {
        if (g_live_sinks[i] == &sink) {
            g_live_sinks.erase(g_live_sinks.begin() + i64(i));
            break;
        }
    }
    if (status != 0) {
        res.has_error_text = st.error != nullptr && st.error_length != 0;
        if (res.has_error_text) {
            res.error.assign(st.error, st.error_length);
        }
    }
    // Only the error text may have changed.
    const auto cmp = [&](const char* name, const auto& a, const auto& b) {
        if (!(a == b)) {
            res.config_changed = true;
            res.config_diff += string(res.config_diff.empty() ? "" : ", ") + name;
        }
    };
    cmp("source", snapshot.source, st.source);
    cmp("source_length", snapshot.source_length, st.source_length);
    cmp("lang", snapshot.lang, st.lang);
    cmp("flags", snapshot.flags, st.flags);
    cmp("token_buffer", snapshot.token_buffer, st.token_buffer);
    cmp("token_buffer_length", snapshot.token_buffer_length, st.token_buffer_length);
    cmp("flush_tokens", snapshot.flush_tokens, st.flush_tokens);
    cmp("flush_tokens_data", snapshot.flush_tokens_data, st.flush_tokens_data);
    cmp("html_tag_name", snapshot.html_tag_name, st.html_tag_name);
    cmp("html_tag_name_length", snapshot.html_tag_name_length, st.html_tag_name_length);
    cmp("html_attr_name", snapshot.html_attr_name, st.html_attr_name);
    cmp("html_attr_name_length", snapshot.html_attr_name_length, st.html_attr_name_length);
    cmp("text_buffer", snapshot.text_buffer, st.text_buffer);
    cmp("text_buffer_length", snapshot.text_buffer_length, st.text_buffer_length);
    cmp("flush_text", snapshot.flush_text, st.flush_text);
    cmp("flush_text_data", snapshot.flush_text_data, st.flush_text_data);
    if (std::memcmp(src_mem.p, r.before.data(), r.before.size()) != 0
        || std::memcmp(src_mem.p + r.before.size(), r.src.data(), r.src.size()) != 0
        || std::memcmp(
               src_mem.p + r.before.size() + r.src.size(), r.after.data(), r.after.size()
           ) != 0) {
        res.src_modified = true;
    }
    // The memory handed over is gone after the request.
    if (!r.tag.empty() || !r.attr.empty()) {
        ulight_state fresh;
        ulight_init(&fresh);
        if (!r.tag.empty()) {
            st.html_tag_name = fresh.html_tag_name;
            st.html_tag_name_length = fresh.html_tag_name_length;
        }
        if (!r.attr.empty()) {
            st.html_attr_name = fresh.html_attr_name;
            st.html_attr_name_length = fresh.html_attr_name_length;
        }
    }
    g_alloc.active = was_active;
    return res;
}

string do_lookup(int kind, string_view arg, int value, string_view after)
{
    // The argument is an exact block: names need no terminator.
    const size_t n = arg.size();
    char* const mem = static_cast<char*>(std::malloc(n + after.size() ? n + after.size() : 1));
    std::memcpy(mem, arg.data(), n);
    std::memcpy(mem + n, after.data(), after.size());
    const auto* const mem8 = reinterpret_cast<const char8_t*>(mem);
    string out;
    const auto str = [&](const void* p, size_t len) {
        out = std::to_string(len) + ":" + (len ? string(static_cast<const char*>(p), len) : "");
    };
    if (!in_task()) {
        Clock::arm(100'000 + 200 * n);
    }
    switch (kind) {
    case 0: out = std::to_string(int(ulight_get_lang(mem, n))); break;
    case 1: out = std::to_string(int(ulight_get_lang_u8(mem8, n))); break;
    case 2: out = std::to_string(int(ulight_lang_from_path(mem, n))); break;
    case 3: out = std::to_string(int(ulight_lang_from_path_u8(mem8, n))); break;
    case 4: {
        const auto r = ulight_lang_display_name(ulight_lang(value));
        str(r.text, r.length);
        break;
    }
    case 5: {
        const auto r = ulight_lang_display_name_u8(ulight_lang(value));
        str(r.text, r.length);
        break;
    }
    case 6: {
        const auto r = ulight_highlight_type_long_string(ulight_highlight_type(value));
        str(r.text, r.length);
        break;
    }
    case 7: {
        const auto r = ulight_highlight_type_short_string(ulight_highlight_type(value));
        str(r.text, r.length);
        break;
    }
    default: {
        const auto r = ulight_highlight_type_short_string_u8(ulight_highlight_type(value));
        str(r.text, r.length);
        break;
    }
    }
    if (!in_task()) {
        Clock::disarm();
    }
    std::free(mem);
    return out;
}

Res run_fresh(const Req& r)
{
    Client c;
    return c.request(r);
}

string apply_faults(string s, const vector<Rec>& recs, i64 target)
{
    for (const auto& r : recs) {
        if (r.kind != "fault" || r.i("target", -1) != target) {
            continue;
        }
        const string& op = r.s("op");
        const size_t at = s.empty() ? 0 : size_t(r.i("at")) % (s.size() + 1);
        const size_t len = std::min(size_t(r.i("len", 1)), s.size() - at);
        if (op == "truncate") {
            s.resize(at);
            SIM_HIT("source-truncated");
        }
        else if (op == "flip") {
            if (at < s.size()) {
                s[at] = char(u8(s[at]) ^ (1u << (r.i("bit") & 7)));
                SIM_HIT("source-bit-flipped");
            }
        }
        else if (op == "lose") {
            s.erase(at, len);
            SIM_HIT("source-block-lost");
        }
        else if (op == "dup") {
            s.insert(at, s.substr(at, len));
            SIM_HIT("source-block-duplicated");
        }
        else if (op == "zero") {
            for (size_t i = 0; i < len; ++i) {
                s[at + i] = 0;
            }
            SIM_HIT("source-block-zeroed");
        }
        else if (op == "swap") {
            const string a = s.substr(at, len);
            s.erase(at, len);
            const size_t to = s.empty() ? 0 : size_t(r.i("to")) % (s.size() + 1);
            s.insert(to, a);
            SIM_HIT("source-block-moved");
        }
    }
    return s;
}

string_view type_name(u8 type)
{
    const ulight_string_view v = ulight_highlight_type_short_string(ulight_highlight_type(type));
    return { v.text, v.length };
}

static void append_escaped(string& out, string_view s)
{
    for (const char c : s) {
        switch (c) {
        case '&': out += "&amp;"; break;
        case '<': out += "&lt;"; break;
        case '>': out += "&gt;"; break;
        default: out += c;
        }
    }
}

string render_html(string_view src, const vector<Tok>& toks, string_view tag, string_view attr)
{
    string out;
    size_t at = 0;
    for (const auto& t : toks) {
        if (t.begin < at || t.begin + t.length > src.size()) {
            return "(token stream is not well-formed)";
        }
        append_escaped(out, src.substr(at, t.begin - at));
        out += '<';
        out += tag;
        out += ' ';
        out += attr;
        out += '=';
        out += type_name(t.type);
        out += '>';
        append_escaped(out, src.substr(t.begin, t.length));
        out += "</";
        out += tag;
        out += '>';
        at = t.begin + t.length;
    }
    append_escaped(out, src.substr(at));
    return out;
}

bool unrender_html(string_view h, string_view tag, string_view attr, string& out)
{
    const string open = "<" + string(tag) + " " + string(attr) + "=";
    const string close = "</" + string(tag) + ">";
    size_t i = 0;
    bool inside = false;
    while (i < h.size()) {
        if (h[i] == '<') {
            if (!inside && h.substr(i).starts_with(open)) {
                const size_t e = h.find('>', i + open.size());
                if (e == string_view::npos) {
                    return false;
                }
                i = e + 1;
                inside = true;
            }
            else if (inside && h.substr(i).starts_with(close)) {
                i += close.size();
                inside = false;
            }
            else {
                return false;
            }
        }
        else if (h[i] == '&') {
            const size_t e = h.find(';', i);
            const string_view ent = h.substr(i, e - i + 1);
            if (ent == "&lt;") {
                out += '<';
            }
            else if (ent == "&gt;") {
                out += '>';
            }
            else if (ent == "&amp;") {
                out += '&';
            }
            else {
                return false;
            }
            i = e + 1;
        }
        else {
            out += h[i++];
        }
    }
    return !inside;
}

bool utf8_valid(string_view s)
{
    size_t i = 0;
    while (i < s.size()) {
        const u8 c = u8(s[i]);
        size_t n = 0;
        u32 v = 0;
        if (c < 0x80) {
            ++i;
            continue;
        }
        if (c >= 0xC2 && c <= 0xDF) {
            n = 1;
            v = c & 0x1Fu;
        }
        else if (c >= 0xE0 && c <= 0xEF) {
            n = 2;
            v = c & 0x0Fu;
        }
        else if (c >= 0xF0 && c <= 0xF4) {
            n = 3;
            v = c & 0x07u;
        }
        else {
            return false;
        }
        if (i + n >= s.size()) {
            return false;
        }
        for (size_t k = 1; k <= n; ++k) {
            const u8 d = u8(s[i + k]);
            if ((d & 0xC0) != 0x80) {
                return false;
            }
            v = (v << 6) | (d & 0x3Fu);
        }
        if ((n == 2 && (v < 0x800 || (v >= 0xD800 && v <= 0xDFFF)))
            || (n == 3 && (v < 0x10000 || v > 0x10FFFF))) {
            return false;
        }
        i += n + 1;
    }
    return true;
}

Req req_from(const Rec& r, const Scenario& sc)
{
    // The source is found in the "src" record with the same "doc" number.
    Req q;
    for (const auto& s : sc.recs) {
        if (s.kind == "src" && s.i("doc") == r.i("doc")) {
            q.lang = int(s.i("lang"));
            q.flags = unsigned(s.i("flags"));
            q.src = apply_faults(s.s("text"), sc.recs, s.i("doc"));
            break;
        }
    }
    if (r.has("lang")) {
        q.lang = int(r.i("lang"));
    }
    if (r.has("flags")) {
        q.flags = unsigned(r.i("flags"));
    }
    q.html = r.i("html") != 0;
    q.tokcap = size_t(std::max<i64>(1, r.i("tokcap", 256)));
    q.textcap = size_t(std::max<i64>(1, r.i("textcap", 1024)));
    q.tag = r.s("tag");
    q.attr = r.s("attr");
    q.cxx = r.i("cxx") != 0;
    q.scribble = int(r.i("scribble"));
    q.fail_at = r.i("fail_at", -1);
    q.exc = int(r.i("exc"));
    q.before = r.s("before");
    q.after = r.s("after");
    q.name_after = r.s("name_after");
    if (r.has("lookup")) {
        q.lookup = int(r.i("lookup")) % lookup_count;
        q.lang = int(r.i("value"));
        q.src = r.s("name");
    }
    return q;
}

string tok_str(const Tok& t, string_view src)
{
    string s = "[" + std::to_string(t.begin) + "," + std::to_string(t.begin + t.length) + ") "
        + string(type_name(t.type)) + "(" + std::to_string(t.type) + ")";
    if (t.begin <= src.size()) {
        s += " " + printable(src.substr(t.begin, std::min<u64>(t.length, 60)), 60);
    }
    return s;
}

string first_diff(const vector<Tok>& a, const vector<Tok>& b, string_view src)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        ++i;
    }
    return "token " + std::to_string(i) + ": "
        + (i < a.size() ? tok_str(a[i], src) : string("(end of stream)")) + " vs "
        + (i < b.size() ? tok_str(b[i], src) : string("(end of stream)"));
}

string first_diff(string_view a, string_view b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) {
        ++i;
    }
    const size_t from = i > 10 ? i - 10 : 0;
    return "byte " + std::to_string(i) + ": " + escape_bytes(a.substr(from, 50)) + " vs "
        + escape_bytes(b.substr(from, 50));
}

void log_res(const Res& r)
{
    if (!g_log) {
        return;
    }
    g_log->ev("result", u64(r.status), r.toks.size(), r.text.size());
    Hash h;
    for (const auto& t : r.toks) {
        h.num(t.begin);
        h.num(t.length);
        h.num(t.type);
    }
    h.str(r.text);
    g_log->ev("content", h.h, r.calls.size(), r.steps);
}

} // namespace sim
