#include "disk.hpp"

#include "ulight/ulight.h"

#include <cerrno>
#include <fcntl.h>
#include <cstdlib>
#include <iostream>
#include <streambuf>
#include <sys/stat.h>
#include <unistd.h>

extern "C" int ulight_cli_main(int argc, const char** argv) __asm__("ulight_cli_main");

namespace sim {

World* g_world = nullptr;
thread_local int t_stream_owner = -1;
i64 g_html_alloc_fail = -1;
u64 g_html_alloc_failed = 0;
u64 g_html_calls = 0;

string normal_path(string_view p)
{
    // "./" and "//" do not change what a path names.
    string out;
    size_t i = 0;
    while (i < p.size()) {
        if (out.empty() || out.back() == '/') {
            if (p[i] == '/' && (!out.empty() || i != 0)) {
                ++i;
                continue;
            }
            if (p[i] == '.' && (i + 1 == p.size() || p[i + 1] == '/')) {
                i += 2;
                continue;
            }
        }
        out += p[i++];
    }
    return out;
}

// ---------------------------------------------------------------------------------------- scratch

namespace {

/// The same files on the real disk, in a directory of our own, for code that bypasses stdio.
struct Scratch {
    string dir;
    Scratch()
    {
        const char* const base = std::getenv("SIM_SCRATCH");
        string t = string(base ? base : "/tmp") + "/simio.XXXXXX";
        if (mkdtemp(t.data()) == nullptr || chdir(t.c_str()) != 0) {
            fatal("infrastructure", "no scratch directory");
        }
        dir = t;
    }
};

void enter_scratch()
{
    static Scratch s;
}

ssize_t dev_read(void* cookie, char* buf, size_t n)
{
    const Alloc_Pause pause;
    auto& s = *static_cast<Open_Stream*>(cookie);
    const auto it = g_world->files.find(s.path);
    if (it == g_world->files.end()) {
        errno = EIO;
        ++s.read_errors;
        return -1;
    }
    if (it->second.is_directory) {
        SIM_HIT("read-of-directory");
        ++s.read_errors;
        errno = EISDIR;
        return -1;
    }
    const string& c = it->second.content;
    size_t left = s.pos < c.size() ? c.size() - s.pos : 0;
    if (s.plan.read_error_at >= 0) {
        const size_t at = size_t(s.plan.read_error_at);
        if (s.pos >= at) {
            ++s.read_errors;
            if (s.plan.read_error_once) {
                s.plan.read_error_at = -1;
                SIM_HIT("read-error-transient");
            }
            else {
                SIM_HIT("read-error-persistent");
            }
            errno = s.plan.read_errno;
            if (g_log) {
                g_log->ev("read-error", s.pos);
            }
            return -1;
        }
        left = std::min(left, at - s.pos);
    }
    size_t k = std::min(n, left);
    if (k > 0 && s.plan.short_max > 0) {
        const size_t lim = size_t(1 + s.rng.below(s.plan.short_max));
        if (lim < k) {
            k = lim;
            ++s.short_reads;
            SIM_HIT("short-read");
        }
    }
    if (k == 0) {
        s.eof = true;
    }
    std::memcpy(buf, c.data() + s.pos, k);
    s.delivered.append(c, s.pos, k);
    s.pos += k;
    return ssize_t(k);
}

size_t device_write(Stream_Plan& plan, string& content, const char* buf, size_t n, u64& errors, const char* what)
{
    size_t k = n;
    if (plan.write_error_at >= 0) {
        const size_t at = size_t(plan.write_error_at);
        const size_t room = content.size() < at ? at - content.size() : 0;
        if (n > room) {
            k = room;
            ++errors;
            g_stats.hit(what);
            errno = plan.write_errno;
            if (plan.write_error_once) {
                plan.write_error_at = -1;
            }
            if (g_log) {
                g_log->ev("write-error", content.size());
            }
        }
    }
    content.append(buf, k);
    return k;
}

ssize_t dev_write(void* cookie, const char* buf, size_t n)
{
    const Alloc_Pause pause;
    auto& s = *static_cast<Open_Stream*>(cookie);
    return ssize_t(device_write(
        s.plan, g_world->files[s.path].content, buf, n, s.write_errors,
        s.plan.write_errno == ENOSPC ? "write-fails-disk-full" : "write-fails-io-error"
    ));
}

int dev_seek(void* cookie, off64_t* off, int whence)
{
    const Alloc_Pause pause;
    auto& s = *static_cast<Open_Stream*>(cookie);
    const i64 size = i64(g_world->files[s.path].content.size());
    i64 to = *off;
    if (whence == SEEK_CUR) {
        to += i64(s.pos);
    }
    else if (whence == SEEK_END) {
        to += size;
    }
    if (to < 0) {
        errno = EINVAL;
        return -1;
    }
    if (to < i64(s.pos) && s.delivered.size() > size_t(to)) {
        s.delivered.resize(size_t(to));
    }
    s.pos = size_t(to);
    *off = to;
    return 0;
}

int dev_close(void* cookie)
{
    const Alloc_Pause pause;
    auto& s = *static_cast<Open_Stream*>(cookie);
    s.open = false;
    if (g_log) {
        g_log->ev("close", 0);
    }
    if (s.plan.close_error) {
        ++s.close_errors;
        SIM_HIT("close-fails");
        errno = EIO;
        return -1;
    }
    return 0;
}

ssize_t out_write(void*, const char* buf, size_t n)
{
    const Alloc_Pause pause;
    return ssize_t(device_write(
        g_world->plans["<stdout>"], g_world->stdout_accepted, buf, n, g_world->stdout_errors,
        "stdout-write-fails"
    ));
}
ssize_t err_write(void* cookie, const char* buf, size_t n)
{
    const Alloc_Pause pause;
    static_cast<string*>(cookie)->append(buf, n);
    return ssize_t(n);
}

struct Out_Buf : std::streambuf { // std::cout on the same device
    std::streamsize xsputn(const char* s, std::streamsize n) override { return out_write(nullptr, s, size_t(n)); }
    int overflow(int c) override
    {
        const char ch = char(c);
        return out_write(nullptr, &ch, 1) == 1 ? c : EOF;
    }
};
struct Err_Buf : std::streambuf {
    string* to;
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        return err_write(to, s, size_t(n));
    }
    int overflow(int c) override
    {
        const char ch = char(c);
        err_write(to, &ch, 1);
        return c;
    }
};

} // namespace

// ------------------------------------------------------------------------------------------ world

World::World()
{
    enter_scratch();
    g_world = this;
}
World::~World()
{
    for (Open_Stream* const s : streams) {
        if (s->open && s->f) {
            s->plan = {};
            std::FILE* const f = s->f;
            s->f = nullptr;
            std::fclose(f);
        }
    }
    for (const auto& [p, f] : files) {
        if (p.size() < 4096) {
            (void)unlink(p.c_str());
        }
    }
    for (Open_Stream* const s : streams) {
        if (s->open) {
            s->open = false;
        }
        delete s;
    }
    g_world = nullptr;
}
void World::add(const string& path, string content)
{
    if (path.size() < 250 && path.find('/') == string::npos && path.find('\0') == string::npos) {
        // not through the simulated calls
        const int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        size_t at = 0;
        while (fd >= 0 && at < content.size()) {
            const ssize_t n = write(fd, content.data() + at, content.size() - at);
            if (n <= 0) {
                break;
            }
            at += size_t(n);
        }
        if (fd < 0 || close(fd) != 0 || at != content.size()) {
            fatal("infrastructure", "cannot write to the scratch directory");
        }
    }
    files[path].content = std::move(content);
}
u64 World::open_count() const
{
    u64 n = 0;
    for (const Open_Stream* const s : streams) {
        n += s->open;
    }
    return n;
}
Open_Stream* World::find(std::FILE* f)
{
    for (size_t i = streams.size(); i-- > 0;) {
        if (streams[i]->f == f) {
            return streams[i];
        }
    }
    return nullptr;
}
Open_Stream* World::last(const string& path)
{
    for (size_t i = streams.size(); i-- > 0;) {
        if (streams[i]->path == path) {
            return streams[i];
        }
    }
    return nullptr;
}

// ----------------------------------------------------------------------------------------- system

extern "C" {
std::FILE* __real_fopen(const char*, const char*);
int __real_fclose(std::FILE*);

std::FILE* __wrap_fopen(const char* raw_path, const char* mode)
{
    if (g_world == nullptr) {
        return __real_fopen(raw_path, mode);
    }
    const Alloc_Pause pause;
    const size_t raw_len = strlen(raw_path);
    if (g_log) {
        g_log->ev("open", raw_len);
    }
    if (raw_len >= 4096) {
        SIM_HIT("open-name-too-long");
        errno = ENAMETOOLONG;
        return nullptr;
    }
    const string path = normal_path({ raw_path, raw_len });
    Stream_Plan plan;
    if (const auto it = g_world->plans.find(path); it != g_world->plans.end()) {
        plan = it->second;
    }
    if (plan.open_errno) {
        SIM_HIT("open-fails");
        errno = plan.open_errno;
        return nullptr;
    }
    const bool write = mode[0] == 'w' || mode[0] == 'a' || strchr(mode, '+') != nullptr;
    const auto f = g_world->files.find(path);
    if (f == g_world->files.end()) {
        if (!write || path.empty()) {
            SIM_HIT("open-missing-file");
            errno = ENOENT;
            return nullptr;
        }
        g_world->files[path];
    }
    else if (f->second.is_directory && write) {
        errno = EISDIR;
        return nullptr;
    }
    else if (mode[0] == 'w') {
        f->second.content.clear();
    }
    auto* const s = new Open_Stream;
    s->path = path;
    s->mode = mode;
    s->owner = t_stream_owner;
    s->plan = plan;
    s->rng = Rng { plan.short_seed };
    s->f = fopencookie(s, mode, { dev_read, dev_write, dev_seek, dev_close });
    if (s->f == nullptr) {
        fatal("infrastructure", "fopencookie failed");
    }
    g_world->streams.push_back(s);
    return s->f;
}
std::FILE* __wrap_fopen64(const char* path, const char* mode)
{
    return __wrap_fopen(path, mode);
}

int __wrap_fclose(std::FILE* f)
{
    if (g_world == nullptr) {
        return __real_fclose(f);
    }
    if (Open_Stream* const s = g_world->find(f)) {
        if (!s->open) {
            // A second close of the same stream: undefined behaviour for real.
            ++g_world->double_closes;
            errno = EBADF;
            return EOF;
        }
    }
    else if (f != stdout && f != stderr) {
        ++g_world->foreign_closes;
    }
    // Blocks of closed streams are not reused, so that a stale pointer stays recognisable.
    const int r = __real_fclose(f);
    return r;
}

[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int code)
{
    if (g_world != nullptr) {
        throw Exit_Called { code };
    }
    __real_exit(code);
}

ulight_status __real_ulight_source_to_html(ulight_state*) noexcept;
ulight_status __wrap_ulight_source_to_html(ulight_state* st) noexcept
{
    if (g_world == nullptr || g_html_alloc_fail < 0) {
        return __real_ulight_source_to_html(st);
    }
    ++g_html_calls;
    alloc_arm(g_html_alloc_fail, 1);
    const ulight_status r = __real_ulight_source_to_html(st);
    g_html_alloc_failed = g_alloc.failed;
    alloc_disarm();
    if (g_html_alloc_failed) {
        SIM_HIT("allocation-fails-while-highlighting");
    }
    return r;
}
}

Cli_Result run_cli(const vector<string>& args)
{
    Cli_Result res;
    vector<const char*> argv;
    for (const auto& a : args) {
        argv.push_back(a.c_str());
    }
    argv.push_back(nullptr);

    std::fflush(stdout);
    std::fflush(stderr);
    std::FILE* const old_out = stdout;
    std::FILE* const old_err = stderr;
    static char outbuf[4096];
    std::FILE* const out = fopencookie(nullptr, "w", { nullptr, out_write, nullptr, nullptr });
    std::FILE* const err = fopencookie(&res.err, "w", { nullptr, err_write, nullptr, nullptr });
    if (!out || !err) {
        fatal("infrastructure", "fopencookie failed");
    }
    setvbuf(out, outbuf, _IOFBF, sizeof outbuf);
    setvbuf(err, nullptr, _IONBF, 0);
    Out_Buf ob;
    Err_Buf eb;
    eb.to = &res.err;
    auto* const cout_buf = std::cout.rdbuf(&ob);
    auto* const cerr_buf = std::cerr.rdbuf(&eb);
    auto* const clog_buf = std::clog.rdbuf(&eb);
    std::cout.clear();
    std::cerr.clear();
    stdout = out;
    stderr = err;
    string escaped;
    try {
        res.code = ulight_cli_main(int(args.size()), argv.data());
    } catch (const Exit_Called& e) {
        res.code = e.code;
        res.exited = true;
    } catch (...) {
        escaped = "an exception escaped main";
    }
    Clock::disarm();
    // What exit() does: flush everything; nobody looks at the result any more.
    std::cout.flush();
    std::fflush(out);
    for (Open_Stream* const s : g_world->streams) {
        if (s->open && s->f) {
            std::fflush(s->f);
        }
    }
    stdout = old_out;
    stderr = old_err;
    std::cout.rdbuf(cout_buf);
    std::cerr.rdbuf(cerr_buf);
    std::clog.rdbuf(clog_buf);
    std::cout.clear();
    std::cerr.clear();
    __real_fclose(out);
    __real_fclose(err);
    if (!escaped.empty()) {
        fatal("crash:terminate", escaped);
    }
    return res;
}

} // namespace sim
