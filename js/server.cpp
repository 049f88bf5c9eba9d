// Runs the real library for the JavaScript simulation: requests come in and results go out through pipes.
#include "ulight/ulight.h"

#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <vector>

static sigjmp_buf g_crash;
static volatile sig_atomic_t g_inside;

static void on_signal(int s)
{
    if (g_inside) {
        siglongjmp(g_crash, s);
    }
    _exit(3);
}

static bool read_all(void* p, size_t n)
{
    char* c = static_cast<char*>(p);
    while (n) {
        const ssize_t k = read(0, c, n);
        if (k <= 0) {
            return false;
        }
        c += k;
        n -= size_t(k);
    }
    return true;
}

static std::string g_out;
static void num(uint32_t v) { g_out.append(reinterpret_cast<const char*>(&v), 4); }
static void str(const char* p, size_t n)
{
    num(uint32_t(n));
    g_out.append(p, n);
}

struct Sink {
    std::string html;
    std::vector<uint32_t> chunks;
};

static void answer_html(const std::string& q)
{
    uint32_t h[4];
    std::memcpy(h, q.data() + 1, sizeof h);
    const std::string src = q.substr(17);
    static Sink sink;
    sink.html.clear();
    sink.chunks.clear();
    std::vector<ulight_token> tokens(h[2]);
    std::vector<char> text(h[3]);
    static ulight_state s;
    ulight_init(&s);
    s.source = src.data();
    s.source_length = src.size();
    s.lang = ulight_lang(h[0]);
    s.flags = ulight_flag(h[1]);
    s.token_buffer = tokens.data();
    s.token_buffer_length = tokens.size();
    s.text_buffer = text.data();
    s.text_buffer_length = text.size();
    s.flush_text_data = &sink;
    s.flush_text = [](const void* d, char* p, size_t n) {
        Sink& k = *static_cast<Sink*>(const_cast<void*>(d));
        k.html.append(p, n);
        k.chunks.push_back(uint32_t(n));
    };
    int status;
    if (sigsetjmp(g_crash, 1) == 0) {
        g_inside = 1;
        alarm(10);
        status = ulight_source_to_html(&s);
        alarm(0);
        g_inside = 0;
    }
    else {
        alarm(0);
        g_inside = 0;
        status = ULIGHT_STATUS_INTERNAL_ERROR;
        s.error = "crash";
        s.error_length = 5;
    }
    num(uint32_t(status));
    if (status != ULIGHT_STATUS_OK && s.error) {
        str(s.error, s.error_length);
    }
    else {
        str("", 0);
    }
    num(uint32_t(sink.chunks.size()));
    for (const uint32_t c : sink.chunks) {
        num(c);
    }
    str(sink.html.data(), sink.html.size());
}

static void answer_tables()
{
    num(uint32_t(ulight_lang_list_length));
    for (size_t i = 0; i < ulight_lang_list_length; ++i) {
        str(ulight_lang_list[i].name, ulight_lang_list[i].name_length);
        num(uint32_t(ulight_lang_list[i].lang));
    }
    num(uint32_t(ULIGHT_LANG_COUNT));
    for (int i = 0; i < int(ULIGHT_LANG_COUNT); ++i) {
        const ulight_string_view v = ulight_lang_display_name(ulight_lang(i));
        str(v.text, v.length);
    }
}

static void answer_types()
{
    uint32_t n = 0;
    for (int i = 0; i < 256; ++i) {
        const ulight_string_view l = ulight_highlight_type_long_string(ulight_highlight_type(i));
        const ulight_string_view s = ulight_highlight_type_short_string(ulight_highlight_type(i));
        n += l.length != 0 && s.length != 0;
    }
    num(n);
    for (int i = 0; i < 256; ++i) {
        const ulight_string_view l = ulight_highlight_type_long_string(ulight_highlight_type(i));
        const ulight_string_view s = ulight_highlight_type_short_string(ulight_highlight_type(i));
        if (l.length != 0 && s.length != 0) {
            str(l.text, l.length);
            str(s.text, s.length);
        }
    }
}

int main()
{
    static char stack[1 << 16];
    stack_t st {};
    st.ss_sp = stack;
    st.ss_size = sizeof stack;
    sigaltstack(&st, nullptr);
    for (const int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM }) {
        struct sigaction a {};
        a.sa_handler = on_signal;
        a.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(s, &a, nullptr);
    }
    uint32_t n;
    std::string q;
    while (read_all(&n, 4)) {
        q.resize(n);
        if (!read_all(q.data(), n)) {
            break;
        }
        g_out.clear();
        if (q[0] == 'H') {
            answer_html(q);
        }
        else if (q[0] == 'L') {
            num(uint32_t(ulight_get_lang(q.data() + 1, n - 1)));
        }
        else if (q[0] == 'N') {
            answer_types();
        }
        else {
            answer_tables();
        }
        const uint32_t len = uint32_t(g_out.size());
        g_out.insert(0, reinterpret_cast<const char*>(&len), 4);
        size_t at = 0;
        while (at < g_out.size()) {
            const ssize_t k = write(1, g_out.data() + at, g_out.size() - at);
            if (k <= 0) {
                return 1;
            }
            at += size_t(k);
        }
    }
    return 0;
}
