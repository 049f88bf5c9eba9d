// The seams: everything outside the code under test that it could depend on.
//   - the step clock and the preemptive scheduler (basic-block instrumentation)
//   - the allocator (operator new/delete)
//   - locks and guarded initialisation (so that a preempted owner never deadlocks the simulation)
//   - strtod/atof (the process locale)
//   - assertion failures (captured for diagnosis)
#include "core.hpp"

#include <cerrno>
#include <cstdio>
#include <clocale>
#include <cstdlib>
#include <exception>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifndef SIM_NO_ASSERT_HOOK
#include "ulight/impl/assert.hpp"
#endif

extern "C" __attribute__((weak)) void __sanitizer_print_stack_trace(void);

namespace sim {

void install_assert_handler();

// The race detector (race.cpp), in the builds which have it.
__attribute__((weak)) void race_begin();
__attribute__((weak)) void race_end();
__attribute__((weak)) void race_thread();
__attribute__((weak)) void race_acquire(const void*);
__attribute__((weak)) void race_release(const void*);

static void acquired(const void* what)
{
    if (race_acquire) {
        race_acquire(what);
    }
}
static void releasing(const void* what)
{
    if (race_release) {
        race_release(what);
    }
}

// ------------------------------------------------------------------------------------ step clock

extern "C" {
i64 sim_quota = i64(1) << 62;
}
static i64 g_quota_set = i64(1) << 62;
static u64 g_clock_base = 0;
static u64 g_limit = ~u64(0);
static u64 g_patience_end = ~u64(0);
void (*g_on_give_up)() = nullptr;

u8 cov_map[cov_size];
u32 cov_touched[cov_size];
size_t cov_n = 0;
static u64 cov_prev = 0;

void cov_reset()
{
    for (size_t i = 0; i < cov_n; ++i) {
        cov_map[cov_touched[i]] = 0;
    }
    cov_n = 0;
    cov_prev = 0;
}

static void load_quota(i64 q)
{
    g_clock_base += u64(g_quota_set - sim_quota);
    g_quota_set = q;
    sim_quota = q;
}

u64 Clock::now()
{
    return g_clock_base + u64(g_quota_set - sim_quota);
}

static Thread_Sim* g_ts = nullptr;
static void task_preempt();
static u64 g_quantum_end = ~u64(0); // absolute clock at which the running task is preempted

static void reload()
{
    const u64 now = Clock::now();
    const u64 first = g_limit < g_quantum_end ? g_limit : g_quantum_end;
    const u64 next = first < g_patience_end ? first : g_patience_end;
    const u64 left = next > now ? next - now : 1;
    load_quota(left > u64(i64(1) << 62) ? i64(1) << 62 : i64(left));
}

void Clock::arm(u64 limit)
{
    const u64 now = Clock::now();
    g_limit = limit > ~u64(0) - now ? ~u64(0) : now + limit;
    reload();
}
void Clock::patience(u64 steps)
{
    g_patience_end = steps != 0 ? now() + steps : ~u64(0);
    reload();
}
void Clock::advance(u64 steps)
{
    g_clock_base += steps;
}
void Clock::disarm()
{
    g_limit = ~u64(0);
    reload();
}

[[noreturn]] void fatal(const string& cls, const string& detail)
{
    std::fflush(stdout);
    if (__sanitizer_print_stack_trace) {
        __sanitizer_print_stack_trace();
    }
    std::fprintf(stderr, "\nSIM-FATAL %s :: %s\n", cls.c_str(), detail.c_str());
    std::fflush(stderr);
    _exit(97);
}

static void slow_path()
{
    const u64 now = Clock::now();
    if (now >= g_limit) {
        fatal("hang", "step limit exceeded");
    }
    if (now >= g_patience_end) {
        if (g_on_give_up) {
            g_on_give_up();
        }
        _exit(given_up_code);
    }
    if (now >= g_quantum_end) {
        task_preempt();
    }
    reload();
}

extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc()
{
#ifndef SIM_FAST // only the clock
    const u64 pc = u64(__builtin_return_address(0));
    const u64 here = (pc * 0x9e3779b97f4a7c15ull) >> 40;
    const u32 slot = u32((here ^ cov_prev) & (cov_size - 1));
    if (cov_map[slot] == 0) {
        cov_touched[cov_n++] = slot;
    }
    if (cov_map[slot] != 255) {
        ++cov_map[slot];
    }
    cov_prev = (here >> 1) & (cov_size - 1);
#endif
    if (__builtin_expect(--sim_quota <= 0, 0)) {
        slow_path();
    }
}

// ----------------------------------------------------------------------------- simulated threads

thread_local int t_task = -1;

namespace {
struct Task {
    sem_t go {};
    std::function<void()>* fn = nullptr;
    bool done = false;
    const void* blocked_on = nullptr;
};
vector<Task>* g_tasks = nullptr;
sem_t g_sched_sem;
int g_running = -1;

void sem_wait_retry(sem_t* s)
{
    while (sem_wait(s) != 0) { }
}

// Threads are reused from run to run: each serves one task slot of its process.
struct Thread_Slot {
    sem_t start {};
};
vector<Thread_Slot*> g_slots;
pid_t g_slots_pid = 0;

void* slot_main(void* arg)
{
    const size_t slot = size_t(arg);
    install_assert_handler();
    if (race_thread) {
        race_thread();
    }
    while (true) {
        sem_wait_retry(&g_slots[slot]->start);
        Task& t = (*g_tasks)[slot];
        sem_wait_retry(&t.go);
        t_task = int(slot);
        try {
            (*t.fn)();
        } catch (...) {
            fatal("exception-escaped", "an exception escaped a simulated task");
        }
        t_task = -1;
        t.done = true;
        sem_post(&g_sched_sem);
    }
    return nullptr;
}

void ensure_slots(size_t n)
{
    if (g_slots_pid != getpid()) { // threads do not survive a fork
        g_slots_pid = getpid();
        g_slots.clear();
    }
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, size_t(128) << 20);
    g_slots.reserve(16);
    while (g_slots.size() < n) {
        g_slots.push_back(new Thread_Slot);
        sem_init(&g_slots.back()->start, 0, 0);
        pthread_t t;
        if (n > 16 || pthread_create(&t, &attr, slot_main, reinterpret_cast<void*>(g_slots.size() - 1)) != 0) {
            fatal("infrastructure", "pthread_create failed");
        }
        pthread_detach(t);
    }
    pthread_attr_destroy(&attr);
}

void park()
{
    Task& t = (*g_tasks)[size_t(t_task)];
    sem_post(&g_sched_sem);
    sem_wait_retry(&t.go);
}
} // namespace

bool in_task()
{
    return t_task >= 0;
}

static void task_preempt()
{
    if (t_task < 0) {
        g_quantum_end = ~u64(0);
        return;
    }
    const Alloc_Pause pause;
    ++g_ts->inner_switches;
    park();
}

void yield_point()
{
    if (t_task < 0) {
        return;
    }
    if (--sim_quota <= 0) {
        const u64 now = Clock::now();
        if (now >= g_quantum_end) {
            park();
        }
        reload();
    }
}

void Thread_Sim::run()
{
    g_ts = this;
    vector<Task> ts(tasks.size());
    g_tasks = &ts;
    sem_init(&g_sched_sem, 0, 0);
    ensure_slots(ts.size());
    for (size_t i = 0; i < ts.size(); ++i) {
        sem_init(&ts[i].go, 0, 0);
        ts[i].fn = &tasks[i];
        sem_post(&g_slots[i]->start);
    }
    if (race_begin) {
        race_begin();
    }
    size_t next = 0;
    while (true) {
        size_t alive = 0;
        for (const auto& t : ts) {
            alive += !t.done;
        }
        if (alive == 0) {
            break;
        }
        size_t want = 0;
        u64 quantum = ~u64(0);
        if (next < schedule.size()) {
            want = schedule[next].task % ts.size();
            quantum = schedule[next].quantum;
            ++next;
        }
        else { // a task which waits for another one by spinning must not keep it from running
            want = switches;
            quantum = 200000;
        }
        size_t pick = ts.size();
        for (size_t k = 0; k < ts.size(); ++k) {
            const size_t c = (want + k) % ts.size();
            if (!ts[c].done && ts[c].blocked_on == nullptr) {
                pick = c;
                break;
            }
        }
        if (pick == ts.size()) {
            fatal("deadlock", "every unfinished task is blocked");
        }
        ++switches;
        if (g_log) {
            g_log->ev("switch", pick, Clock::now());
        }
        g_running = int(pick);
        const u64 now = Clock::now();
        g_quantum_end = quantum > ~u64(0) - now ? ~u64(0) : now + (quantum ? quantum : 1);
        cov_prev = 0;
        reload();
        sem_post(&ts[pick].go);
        sem_wait_retry(&g_sched_sem);
        g_quantum_end = ~u64(0);
        reload();
    }
    if (race_end) {
        race_end();
    }
    for (auto& t : ts) {
        sem_destroy(&t.go);
    }
    sem_destroy(&g_sched_sem);
    g_tasks = nullptr;
    g_ts = nullptr;
}

// Blocks the current task until somebody unblocks `what`.
static void block_on(const void* what)
{
    Task& t = (*g_tasks)[size_t(t_task)];
    t.blocked_on = what;
    park();
}
static void unblock(const void* what)
{
    if (g_tasks == nullptr) {
        return;
    }
    for (auto& t : *g_tasks) {
        if (t.blocked_on == what) {
            t.blocked_on = nullptr;
        }
    }
}

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (t_task < 0) {
        return __real_pthread_mutex_lock(m);
    }
    while (true) {
        const int r = pthread_mutex_trylock(m);
        if (r != EBUSY) {
            acquired(m);
            return r;
        }
        SIM_HIT("lock-contended");
        block_on(m);
    }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    releasing(m);
    const int r = __real_pthread_mutex_unlock(m);
    unblock(m);
    return r;
}

int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (t_task < 0) {
        return __real_pthread_rwlock_rdlock(m);
    }
    while (true) {
        const int r = pthread_rwlock_tryrdlock(m);
        if (r != EBUSY) {
            acquired(m);
            return r;
        }
        SIM_HIT("lock-contended");
        block_on(m);
    }
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (t_task < 0) {
        return __real_pthread_rwlock_wrlock(m);
    }
    while (true) {
        const int r = pthread_rwlock_trywrlock(m);
        if (r != EBUSY) {
            acquired(m);
            return r;
        }
        SIM_HIT("lock-contended");
        block_on(m);
    }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    releasing(m);
    const int r = __real_pthread_rwlock_unlock(m);
    unblock(m);
    return r;
}

// Waiting for a value to change (std::atomic::wait) and giving up the time slice.
long __real_syscall(long, long, long, long, long, long, long);
long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    if (t_task < 0 || n != SYS_futex) {
        return __real_syscall(n, a, b, c, d, e, f);
    }
    park();
    return 0;
}
int __real_sched_yield();
int __wrap_sched_yield()
{
    if (t_task < 0) {
        return __real_sched_yield();
    }
    park();
    return 0;
}

int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* once, void (*fn)())
{
    if (t_task < 0) {
        return __real_pthread_once(once, fn);
    }
    // 0: not started (PTHREAD_ONCE_INIT); 2: done, as in glibc; 1: simulated, in progress.
    auto* const v = reinterpret_cast<volatile int*>(once);
    while (true) {
        if ((*v & 3) == 2) {
            acquired(once);
            return 0;
        }
        if (*v == 0) {
            acquired(once);
            *v = 1;
            try {
                fn();
            } catch (...) {
                releasing(once);
                *v = 0;
                unblock(once);
                throw;
            }
            releasing(once);
            *v = 2;
            unblock(once);
            return 0;
        }
        block_on(once);
    }
}

// Function-local statics. Byte 0: initialised; byte 1: in progress.
int __wrap___cxa_guard_acquire(u64* g)
{
    auto* const b = reinterpret_cast<volatile u8*>(g);
    while (true) {
        if (b[0]) {
            acquired(g);
            return 0;
        }
        if (!b[1]) {
            acquired(g);
            b[1] = 1;
            return 1;
        }
        if (t_task < 0) {
            fatal("recursive-init", "recursive initialisation of a local static");
        }
        block_on(g);
    }
}
void __wrap___cxa_guard_release(u64* g)
{
    auto* const b = reinterpret_cast<volatile u8*>(g);
    releasing(g);
    b[1] = 0;
    b[0] = 1;
    unblock(g);
}
void __wrap___cxa_guard_abort(u64* g)
{
    auto* const b = reinterpret_cast<volatile u8*>(g);
    releasing(g);
    b[1] = 0;
    unblock(g);
}
}

// ------------------------------------------------------------------------------------- allocator

Alloc_Seam g_alloc;

namespace {
struct Block {
    void* p;
    size_t size;
    size_t align;
};
// Open addressing, never shrinks; raw malloc so that it does not call itself.
Block* g_blocks = nullptr;
size_t g_block_cap = 0;
size_t g_block_used = 0;
char tomb_storage;
void* const tomb = &tomb_storage;

Block* find_block(void* p)
{
    if (g_block_cap == 0) {
        return nullptr;
    }
    size_t i = size_t(mix(u64(p), 1)) & (g_block_cap - 1);
    while (g_blocks[i].p != nullptr) {
        if (g_blocks[i].p == p) {
            return &g_blocks[i];
        }
        i = (i + 1) & (g_block_cap - 1);
    }
    return nullptr;
}
void add_block(void* p, size_t size, size_t align)
{
    if (g_block_used * 2 >= g_block_cap) {
        Block* const old = g_blocks;
        const size_t old_cap = g_block_cap;
        g_block_cap = old_cap ? old_cap * 2 : 4096;
        g_blocks = static_cast<Block*>(std::calloc(g_block_cap, sizeof(Block)));
        g_block_used = 0;
        for (size_t i = 0; i < old_cap; ++i) {
            if (old[i].p != nullptr && old[i].p != tomb) {
                add_block(old[i].p, old[i].size, old[i].align);
            }
        }
        std::free(old);
    }
    size_t i = size_t(mix(u64(p), 1)) & (g_block_cap - 1);
    while (g_blocks[i].p != nullptr) {
        i = (i + 1) & (g_block_cap - 1);
    }
    g_blocks[i] = { p, size, align };
    ++g_block_used;
}

constexpr size_t dflt_align = 0; // plain new, as opposed to new with an explicit alignment

void* do_new(size_t size, size_t align)
{
    const bool active = g_alloc.active;
    if (active) {
        const i64 k = i64(g_alloc.count++);
        if (g_alloc.fail_at >= 0 && k >= g_alloc.fail_at
            && k < g_alloc.fail_at + g_alloc.fail_for) {
            ++g_alloc.failed;
            return nullptr;
        }
        if ((align & (align - 1)) != 0 || size > (size_t(1) << 36)) {
            return nullptr;
        }
    }
    void* p = nullptr;
    if (align > 16) {
        if (posix_memalign(&p, align, size ? size : 1) != 0) {
            p = nullptr;
        }
    }
    else {
        p = std::malloc(size ? size : 1);
    }
    if (active && p != nullptr) {
        add_block(p, size, align);
        ++g_alloc.live;
    }
    return p;
}

void do_delete(void* p, i64 size, size_t align)
{
    if (p == nullptr) {
        return;
    }
    if (Block* const b = find_block(p)) {
        if (g_alloc.live > 0) {
            --g_alloc.live;
        }
        const bool size_bad = size >= 0 && size_t(size) != b->size;
        const bool align_bad = align != b->align;
        if (size_bad || align_bad) {
            ++g_alloc.mismatched;
            char buf[160];
            std::snprintf(
                buf, sizeof buf, "allocated size=%zu align=%zu, freed size=%lld align=%zu",
                b->size, b->align, (long long)size, align
            );
            const bool was = g_alloc.active;
            g_alloc.active = false;
            g_alloc.mismatch_text = buf;
            g_alloc.active = was;
        }
        b->p = tomb;
    }
    std::free(p);
}
} // namespace

void alloc_arm(i64 fail_at, i64 fail_for)
{
    g_alloc.fail_at = fail_at;
    g_alloc.fail_for = fail_for;
    g_alloc.count = 0;
    g_alloc.failed = 0;
    g_alloc.active = true;
}
void alloc_disarm()
{
    g_alloc.active = false;
    g_alloc.fail_at = -1;
}

// ----------------------------------------------------------------------------------------- locale

int g_locale_radix = 0;
u64 g_strtod_calls = 0;

namespace {
const char* const radixes[] = { ".", ",", "\u066B" };
}

extern "C" {
double __real_strtod(const char*, char**);
double __wrap_strtod(const char* s, char** end)
{
    ++g_strtod_calls;
    if (g_locale_radix == 0) {
        return __real_strtod(s, end);
    }
    // In a locale with another radix character, a '.' ends the number.
    const string_view radix = radixes[g_locale_radix];
    string copy { s };
    const size_t dot = copy.find('.');
    if (dot != string::npos) {
        copy.resize(dot);
    }
    const size_t at = copy.find(radix);
    if (at != string::npos) {
        copy.replace(at, radix.size(), ".");
    }
    char* e = nullptr;
    const double r = __real_strtod(copy.c_str(), &e);
    if (end) {
        size_t n = size_t(e - copy.c_str());
        if (at != string::npos && n > at) {
            n += radix.size() - 1;
        }
        *end = const_cast<char*>(s) + n;
    }
    return r;
}
struct lconv* __real_localeconv();
struct lconv* __wrap_localeconv()
{
    if (g_locale_radix == 0) {
        return __real_localeconv();
    }
    static struct lconv l;
    l = *__real_localeconv();
    l.decimal_point = const_cast<char*>(radixes[g_locale_radix]);
    return &l;
}
double __wrap_atof(const char* s)
{
    return __wrap_strtod(s, nullptr);
}
}

// ------------------------------------------------------------------------------------- assertions

#ifndef SIM_NO_ASSERT_HOOK
static void capture_assert(const ulight::Assertion_Error& e)
{
    {
        const Alloc_Pause pause;
        g_last_assert = string(reinterpret_cast<const char*>(e.message.data()), e.message.size())
            + " at " + e.location.file_name() + ":" + std::to_string(e.location.line());
        const size_t r = g_last_assert.find("/repo/");
        if (r != string::npos) {
            g_last_assert.erase(r, 6);
        }
        SIM_HIT("assert-failed");
    }
    throw e;
}
#endif
void install_assert_handler()
{
#ifndef SIM_NO_ASSERT_HOOK
    ulight::assertion_handler = capture_assert;
#endif
}

} // namespace sim

void* operator new(std::size_t n)
{
    if (void* const p = sim::do_new(n, sim::dflt_align)) {
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](std::size_t n)
{
    return operator new(n);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::do_new(n, sim::dflt_align);
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept
{
    return sim::do_new(n, sim::dflt_align);
}
void* operator new(std::size_t n, std::align_val_t a)
{
    if (void* const p = sim::do_new(n, std::size_t(a))) {
        return p;
    }
    throw std::bad_alloc();
}
void* operator new[](std::size_t n, std::align_val_t a)
{
    return operator new(n, a);
}
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return sim::do_new(n, std::size_t(a));
}
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    return sim::do_new(n, std::size_t(a));
}
void operator delete(void* p) noexcept
{
    sim::do_delete(p, -1, sim::dflt_align);
}
void operator delete[](void* p) noexcept
{
    sim::do_delete(p, -1, sim::dflt_align);
}
void operator delete(void* p, std::size_t n) noexcept
{
    sim::do_delete(p, sim::i64(n), sim::dflt_align);
}
void operator delete[](void* p, std::size_t n) noexcept
{
    sim::do_delete(p, sim::i64(n), sim::dflt_align);
}
void operator delete(void* p, std::align_val_t a) noexcept
{
    sim::do_delete(p, -1, std::size_t(a));
}
void operator delete[](void* p, std::align_val_t a) noexcept
{
    sim::do_delete(p, -1, std::size_t(a));
}
void operator delete(void* p, std::size_t n, std::align_val_t a) noexcept
{
    sim::do_delete(p, sim::i64(n), std::size_t(a));
}
void operator delete[](void* p, std::size_t n, std::align_val_t a) noexcept
{
    sim::do_delete(p, sim::i64(n), std::size_t(a));
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    sim::do_delete(p, -1, sim::dflt_align);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    sim::do_delete(p, -1, sim::dflt_align);
}
