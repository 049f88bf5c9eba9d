#include "child.hpp"

#include <cerrno>
#include <cstdio>
#include <pthread.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static bool write_all(int fd, string_view s)
{
    while (!s.empty()) {
        const ssize_t n = write(fd, s.data(), s.size());
        if (n < 0) {
            if (errno == EINTR) {
                continue;
            }
            return false;
        }
        s.remove_prefix(size_t(n));
    }
    return true;
}

string in_child(bool cold, const std::function<void(string&)>& fn)
{
    if (!cold) {
        string out;
        fn(out);
        return out;
    }
    int fds[2];
    if (pipe(fds) != 0) {
        fatal("infrastructure", "pipe failed");
    }
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) {
        fatal("infrastructure", "fork failed");
    }
    if (pid == 0) {
        close(fds[0]);
        g_stats.n.clear();
        Log log;
        log.keep = g_log != nullptr && g_log->keep;
        g_log = &log;
        const u64 t0 = Clock::now();
        string out;
        fn(out);
        string frame;
        Packer p { frame };
        p.str(out);
        p.num(log.h.h);
        p.num(log.events);
        p.str(log.text);
        p.num(Clock::now() - t0);
        p.num(g_stats.n.size());
        for (const auto& [k, n] : g_stats.n) {
            p.str(k);
            p.num(n);
        }
        _exit(write_all(fds[1], frame) ? 0 : 95);
    }
    close(fds[1]);
    string got;
    static char buf[1 << 16];
    ssize_t n;
    while ((n = read(fds[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR)) {
        if (n > 0) {
            got.append(buf, size_t(n));
        }
    }
    close(fds[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if (WIFSIGNALED(st)) {
            std::fprintf(stderr, "\nSIM-FATAL crash:signal-%d :: the simulated process was killed\n", WTERMSIG(st));
        }
        std::fflush(stderr);
        _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
    }
    Unpacker u { got };
    string out = u.str();
    const u64 hash = u.num();
    const u64 events = u.num();
    const string text = u.str();
    Clock::advance(u.num());
    const u64 k = u.num();
    for (u64 i = 0; i < k && !u.bad; ++i) {
        const string name = u.str();
        g_stats.n[name] += u.num();
    }
    if (u.bad) {
        fatal("infrastructure", "a child sent an incomplete report");
    }
    if (g_log) {
        g_log->h.num(hash);
        g_log->events += events;
        g_log->text += text;
    }
    return out;
}

string on_ordinary_stack(const std::function<void(string&)>& fn, size_t bytes)
{
    return in_child(true, [&, bytes](string& out) {
        struct Arg {
            const std::function<void(string&)>& fn;
            string& out;
        } arg { fn, out };
        pthread_attr_t attr;
        pthread_attr_init(&attr);
        pthread_attr_setstacksize(&attr, bytes);
        pthread_t t;
        const auto body = [](void* p) -> void* {
            Arg& a = *static_cast<Arg*>(p);
            a.fn(a.out);
            return nullptr;
        };
        if (pthread_create(&t, &attr, body, &arg) != 0) {
            fatal("infrastructure", "pthread_create failed");
        }
        pthread_join(t, nullptr);
        pthread_attr_destroy(&attr);
    });
}

} // namespace sim
