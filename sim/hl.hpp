// The simulated clients of the highlighting API: they own states, sources, buffers and callbacks.
#pragma once
#include "core.hpp"

#include "ulight/ulight.h"

namespace sim {

struct Tok {
    u64 begin, length;
    u8 type;
    bool operator==(const Tok&) const = default;
};

/// What a failing consumer throws.
enum Exc : int {
    exc_runtime, exc_bad_alloc, exc_int, exc_struct, exc_invalid_argument, exc_out_of_range, exc_length_error,
    exc_system_error, exc_bad_optional_access, exc_string, exc_exception, exc_bad_cast, exc_count
};
[[noreturn]] void throw_as(int exc, const char* who);
/// Inside of a handler: what was thrown, or -1 if throw_as did not throw it.
int thrown_kind();

/// One request, as configured by a client.
struct Req {
    int lang = 0;
    unsigned flags = 0;
    string src;
    string before, after; // surroundings of the source in memory; if both empty, exact allocation
    bool html = false;
    size_t tokcap = 256;
    size_t textcap = 1024;
    string tag, attr; // empty: leave the defaults
    string name_after; // what follows the names in memory
    bool cxx = false; // through ulight::State
    int scribble = 0; // what the callback does to the buffer
    i64 fail_at = -1; // callback number that throws
    int exc = 0;
    std::function<void(size_t)> at_call; // runs inside callback number k
    u64 step_limit = 0; // 0: default bound
    int lookup = -1; // not a request, but a lookup of the name or path in src, or of the value lang
};

struct Res {
    int status = -1;
    bool has_error_text = false;
    string error;
    vector<Tok> toks;
    string text;
    vector<size_t> calls; // sizes, in order
    string proto; // first protocol violation
    u64 steps = 0;
    bool threw = false; // a callback threw
    bool src_modified = false;
    bool config_changed = false;
    string config_diff;
    string assert_text;
};

u64 default_step_limit(size_t source_length);
u64 default_step_limit(const Req& r);

/// A client with one long-lived state.
class Client {
public:
    Client();
    explicit Client(bool via_new); // through ulight_new
    ~Client();
    Client(const Client&) = delete;
    Client& operator=(const Client&) = delete;
    Res request(const Req& r);
    ulight_state* state() { return m_state; }

    struct Sink;

private:
    ulight_state* m_state;
    bool m_new = false;
};

constexpr int lookup_count = 9;
/// The answer of the functions that take and give names.
string do_lookup(int kind, string_view arg, int value, string_view after = {});

/// A request on a fresh state.
Res run_fresh(const Req& r);

/// Applies the "fault" records of a scenario that damage the source in transit.
string apply_faults(string text, const vector<Rec>& recs, i64 target = -1);

/// Renders HTML from tokens the way the documentation describes.
string render_html(string_view src, const vector<Tok>& toks, string_view tag, string_view attr);
/// Inverse of the escaping and the markup (knows the tag name and attribute name).
bool unrender_html(string_view html, string_view tag, string_view attr, string& out);

bool utf8_valid(string_view s);
/// Whether i is a code point boundary in valid UTF-8.
inline bool utf8_boundary(string_view s, size_t i)
{
    return i >= s.size() || (u8(s[i]) & 0xC0) != 0x80;
}


Req req_from(const Rec& r, const Scenario& sc);
string tok_str(const Tok& t, string_view src);
string first_diff(const vector<Tok>& a, const vector<Tok>& b, string_view src);
string first_diff(string_view a, string_view b);
void log_res(const Res& r);
string_view type_name(u8 type);

} // namespace sim
