// Data races among simulated threads: the runtime behind -fsanitize=thread for the library under test (build variant
// "race"). Threads run one at a time, so the order of accesses is the schedule's; whether two of them are ordered by
// synchronisation is decided with vector clocks, so a race is seen however small its window is.
//   - synchronisation: locks, once, guarded initialisation (seams.cpp) and atomics
//   - memory: everything the library reads and writes, except the running thread's own stack
#include "core.hpp"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <unistd.h>

namespace sim {

extern thread_local int t_task;
extern int g_running;

namespace {

constexpr int max_tasks = 4;
using Clocks = std::array<u32, max_tasks>;

struct Cell {
    u32 write_clock;
    u32 write_pc;
    u32 read_clock[max_tasks];
    u32 read_pc[max_tasks];
    u8 write_task;
};
struct Line {
    u64 key; // address / 64, 0: free
    u32 epoch;
    Cell cells[64];
};
struct Sync {
    u64 key;
    u32 epoch;
    Clocks vc;
};

constexpr size_t line_max = size_t(1) << 14;
Line* lines = nullptr;
size_t lines_used = 0;
constexpr size_t sync_max = size_t(1) << 12;
Sync* syncs = nullptr;
size_t syncs_used = 0;
u32 epoch = 0;
bool active = false;

struct Task_Clocks {
    Clocks vc {};
    Clocks relaxed {}; // what relaxed loads saw, for a later acquire fence
    Clocks fence {};   // what a release fence published, for later relaxed stores
};
Task_Clocks tasks[max_tasks];

thread_local u64 t_stack_lo = 0;
thread_local u64 t_stack_hi = 0;

Line* find_line(u64 key, bool make)
{
    size_t i = size_t(mix(key, 7)) & (line_max - 1);
    while (lines[i].key != 0 && lines[i].epoch == epoch) {
        if (lines[i].key == key) {
            return &lines[i];
        }
        i = (i + 1) & (line_max - 1);
    }
    if (!make || lines_used * 2 > line_max) {
        return nullptr; // full: what does not fit is not watched
    }
    ++lines_used;
    std::memset(&lines[i], 0, sizeof(Line));
    lines[i].key = key;
    lines[i].epoch = epoch;
    return &lines[i];
}

Sync* find_sync(u64 key, bool make)
{
    size_t i = size_t(mix(key, 8)) & (sync_max - 1);
    while (syncs[i].key != 0 && syncs[i].epoch == epoch) {
        if (syncs[i].key == key) {
            return &syncs[i];
        }
        i = (i + 1) & (sync_max - 1);
    }
    if (!make) {
        return nullptr;
    }
    if (syncs_used * 2 > sync_max) {
        fatal("infrastructure", "too many synchronisation objects");
    }
    ++syncs_used;
    std::memset(&syncs[i], 0, sizeof(Sync));
    syncs[i].key = key;
    syncs[i].epoch = epoch;
    return &syncs[i];
}

void join(Clocks& to, const Clocks& from)
{
    for (int i = 0; i < max_tasks; ++i) {
        if (from[size_t(i)] > to[size_t(i)]) {
            to[size_t(i)] = from[size_t(i)];
        }
    }
}

string where(u32 pc)
{
    char cmd[128];
    std::snprintf(cmd, sizeof cmd, "addr2line -sfCe /proc/%d/exe 0x%x 2>/dev/null", int(getpid()), pc - 1);
    string fn, res;
    if (FILE* const f = popen(cmd, "r")) {
        char line[512];
        int n = 0;
        while (std::fgets(line, sizeof line, f)) {
            string s = line;
            while (!s.empty() && s.back() == '\n') {
                s.pop_back();
            }
            (n++ == 0 ? fn : res) = s;
        }
        pclose(f);
    }
    return fn.substr(0, 100) + " (" + res + ")";
}

[[noreturn]] void race(const char* a, u32 pc_a, const char* b, u32 pc_b)
{
    active = false;
    const Alloc_Pause pause;
    fatal(
        "data-race",
        string(a) + " in " + where(pc_a) + " is not ordered with the " + b + " of another thread in " + where(pc_b)
    );
}

inline bool watched(u64 addr)
{
    return active && t_task >= 0 && t_task < max_tasks && (addr < t_stack_lo || addr >= t_stack_hi);
}

void access(const void* p, size_t n, bool write, const void* ra)
{
    u64 a = u64(p);
    if (!watched(a)) {
        return;
    }
    const u32 pc = u32(u64(ra));
    const int t = t_task;
    Clocks& vc = tasks[t].vc;
    Line* line = nullptr;
    for (const u64 end = a + n; a < end; ++a) {
        if (line == nullptr || (a & 63) == 0) {
            line = find_line(a >> 6, true);
            if (line == nullptr) {
                return;
            }
        }
        Cell& c = line->cells[a & 63];
        if (c.write_clock > (c.write_task == t ? ~u32(0) : vc[c.write_task])) {
            race(write ? "a write" : "a read", pc, "write", c.write_pc);
        }
        if (write) {
            for (int u = 0; u < max_tasks; ++u) {
                if (u != t && c.read_clock[u] > vc[size_t(u)]) {
                    race("a write", pc, "read", c.read_pc[u]);
                }
            }
            c.write_clock = vc[size_t(t)];
            c.write_task = u8(t);
            c.write_pc = pc;
        }
        else {
            c.read_clock[t] = vc[size_t(t)];
            c.read_pc[t] = pc;
        }
    }
}

void forget(const void* p, size_t n)
{
    if (!active || p == nullptr || n == 0) {
        return;
    }
    const u64 lo = u64(p), hi = u64(p) + n;
    const auto clear = [&](Line& l) {
        const u64 base = l.key << 6;
        const u64 b = lo > base ? lo - base : 0;
        const u64 e = hi < base + 64 ? hi - base : 64;
        std::memset(&l.cells[b], 0, size_t(e - b) * sizeof(Cell));
    };
    if (n > line_max * 16) {
        for (size_t i = 0; i < line_max; ++i) {
            if (lines[i].key != 0 && lines[i].epoch == epoch && lines[i].key >= (lo >> 6)
                && lines[i].key <= ((hi - 1) >> 6)) {
                clear(lines[i]);
            }
        }
        return;
    }
    for (u64 k = lo >> 6; k <= (hi - 1) >> 6; ++k) {
        if (Line* const l = find_line(k, false)) {
            clear(*l);
        }
    }
}

bool in_sim()
{
    return active && t_task >= 0 && t_task < max_tasks;
}

} // namespace

// Called by the seams.
void race_begin()
{
    if (lines == nullptr) {
        lines = static_cast<Line*>(std::calloc(line_max, sizeof(Line)));
        syncs = static_cast<Sync*>(std::calloc(sync_max, sizeof(Sync)));
    }
    ++epoch;
    lines_used = 0;
    syncs_used = 0;
    for (int i = 0; i < max_tasks; ++i) {
        tasks[i] = {};
        tasks[i].vc[size_t(i)] = 1;
    }
    active = true;
}
void race_end()
{
    g_stats.hit("race-detector:watched-lines", lines_used);
    g_stats.hit("race-detector:synchronisation-objects", syncs_used);
    active = false;
}
void race_thread()
{
    pthread_attr_t attr;
    void* lo = nullptr;
    size_t size = 0;
    if (pthread_getattr_np(pthread_self(), &attr) == 0) {
        pthread_attr_getstack(&attr, &lo, &size);
        pthread_attr_destroy(&attr);
    }
    t_stack_lo = u64(lo);
    t_stack_hi = u64(lo) + size;
}
void race_acquire(const void* obj)
{
    if (!in_sim()) {
        return;
    }
    if (const Sync* const s = find_sync(u64(obj), false)) {
        join(tasks[t_task].vc, s->vc);
    }
}
void race_release(const void* obj)
{
    if (!in_sim()) {
        return;
    }
    join(find_sync(u64(obj), true)->vc, tasks[t_task].vc);
    ++tasks[t_task].vc[size_t(t_task)];
}

namespace {

void load_order(const volatile void* a, int order)
{
    if (!in_sim()) {
        return;
    }
    if (const Sync* const s = find_sync(u64(a), false)) {
        join(order != __ATOMIC_RELAXED ? tasks[t_task].vc : tasks[t_task].relaxed, s->vc);
    }
}
void store_order(const volatile void* a, int order, bool rmw)
{
    if (!in_sim()) {
        return;
    }
    Sync* const s = find_sync(u64(a), true);
    if (order == __ATOMIC_RELAXED || order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME) {
        if (!rmw) {
            s->vc = {};
        }
        join(s->vc, tasks[t_task].fence);
        return;
    }
    if (!rmw) {
        s->vc = {};
    }
    join(s->vc, tasks[t_task].vc);
    ++tasks[t_task].vc[size_t(t_task)];
}

} // namespace

} // namespace sim

using namespace sim;

#define RA __builtin_return_address(0)

extern "C" {

void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }

#define SIM_ACCESS(n)                                                                              \
    void __tsan_read##n(void* p) { access(p, n, false, RA); }                                      \
    void __tsan_write##n(void* p) { access(p, n, true, RA); }                                      \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, RA); }                            \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, RA); }                            \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, RA); }                             \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, RA); }                             \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, RA); }                   \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, RA); }
SIM_ACCESS(1)
SIM_ACCESS(2)
SIM_ACCESS(4)
SIM_ACCESS(8)
SIM_ACCESS(16)

void __tsan_read_range(void* p, size_t n) { access(p, n, false, RA); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, RA); }
void __tsan_vptr_update(void** p, void* v)
{
    if (*p != v) {
        access(p, 8, true, RA);
    }
}
void __tsan_vptr_read(void** p) { access(p, 8, false, RA); }

// The library's calls of these are redirected here (objcopy).
void* race_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, RA);
    access(d, n, true, RA);
    return std::memcpy(d, s, n);
}
void* race_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, RA);
    access(d, n, true, RA);
    return std::memmove(d, s, n);
}
void* race_memset(void* d, int c, size_t n)
{
    access(d, n, true, RA);
    return std::memset(d, c, n);
}
int race_memcmp(const void* a, const void* b, size_t n)
{
    const int r = std::memcmp(a, b, n);
    size_t k = 0; // it may stop at the first difference
    while (k < n && static_cast<const char*>(a)[k] == static_cast<const char*>(b)[k]) {
        ++k;
    }
    k = k < n ? k + 1 : n;
    access(a, k, false, RA);
    access(b, k, false, RA);
    return r;
}
size_t race_strlen(const char* s)
{
    const size_t n = std::strlen(s);
    access(s, n + 1, false, RA);
    return n;
}

// Memory which is handed out anew has no history.
void* __real_malloc(size_t);
void* __wrap_malloc(size_t n)
{
    void* const p = __real_malloc(n);
    forget(p, n);
    return p;
}
int __real_posix_memalign(void**, size_t, size_t);
int __wrap_posix_memalign(void** p, size_t a, size_t n)
{
    const int r = __real_posix_memalign(p, a, n);
    if (r == 0) {
        forget(*p, n);
    }
    return r;
}
void* __real_calloc(size_t, size_t);
void* __wrap_calloc(size_t a, size_t b)
{
    void* const p = __real_calloc(a, b);
    forget(p, a * b);
    return p;
}
void* __real_realloc(void*, size_t);
void* __wrap_realloc(void* q, size_t n)
{
    void* const p = __real_realloc(q, n);
    if (p != q) {
        forget(p, n);
    }
    return p;
}

#define SIM_ATOMIC(bits, T)                                                                        \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo)                                      \
    {                                                                                              \
        const T r = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                          \
        load_order(a, mo);                                                                         \
        return r;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo)                                   \
    {                                                                                              \
        store_order(a, mo, false);                                                                 \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                  \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(                                             \
        volatile T* a, T* c, T v, int mo, int fmo                                                  \
    )                                                                                              \
    {                                                                                              \
        const bool ok                                                                              \
            = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);     \
        load_order(a, ok ? mo : fmo);                                                              \
        if (ok) {                                                                                  \
            store_order(a, mo, true);                                                              \
        }                                                                                          \
        return ok;                                                                                 \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)     \
    {                                                                                              \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                    \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)         \
    {                                                                                              \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                          \
        return c;                                                                                  \
    }
#define SIM_RMW(bits, T, name, op)                                                                 \
    T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo)                                     \
    {                                                                                              \
        load_order(a, mo);                                                                         \
        store_order(a, mo, true);                                                                  \
        return op(a, v, __ATOMIC_SEQ_CST);                                                         \
    }
#define SIM_RMWS(bits, T)                                                                          \
    SIM_ATOMIC(bits, T)                                                                            \
    SIM_RMW(bits, T, exchange, __atomic_exchange_n)                                                \
    SIM_RMW(bits, T, fetch_add, __atomic_fetch_add)                                                \
    SIM_RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                \
    SIM_RMW(bits, T, fetch_and, __atomic_fetch_and)                                                \
    SIM_RMW(bits, T, fetch_or, __atomic_fetch_or)                                                  \
    SIM_RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                \
    SIM_RMW(bits, T, fetch_nand, __atomic_fetch_nand)
SIM_RMWS(8, u8)
SIM_RMWS(16, unsigned short)
SIM_RMWS(32, u32)
SIM_RMWS(64, u64)

void __tsan_atomic_thread_fence(int mo)
{
    if (!in_sim() || mo == __ATOMIC_RELAXED) {
        return;
    }
    Task_Clocks& t = tasks[t_task];
    if (mo != __ATOMIC_RELEASE) {
        join(t.vc, t.relaxed);
    }
    if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME) {
        t.fence = t.vc;
        ++t.vc[size_t(t_task)];
    }
}
void __tsan_atomic_signal_fence(int) { }
}
