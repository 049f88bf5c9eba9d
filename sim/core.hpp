// Core of the deterministic simulator: PRNG, scenarios, verdicts, statistics, seams.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim {

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;
using std::size_t;
using std::string;
using std::string_view;
using std::vector;

// ------------------------------------------------------------------------------------------ PRNG

struct Rng {
    u64 s[4];
    explicit Rng(u64 seed = 1)
    {
        for (auto& x : s) {
            seed += 0x9e3779b97f4a7c15ull;
            u64 z = seed;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            x = z ^ (z >> 31);
        }
    }
    u64 next()
    {
        const auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); };
        const u64 r = rotl(s[1] * 5, 7) * 9;
        const u64 t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
    // uniform in [0, n); n == 0 gives 0
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    // small numbers are more likely: log-uniform in [1, max]
    u64 logu(u64 max)
    {
        u64 bits = 0;
        while ((max >> bits) > 1) {
            ++bits;
        }
        const u64 b = below(bits + 1);
        u64 v = (u64(1) << b) + below(u64(1) << b);
        return v > max ? max : v;
    }
    template <typename T>
    const T& pick(const vector<T>& v)
    {
        return v[below(v.size())];
    }
};

inline u64 mix(u64 a, u64 b)
{
    u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Hash {
    u64 h = 0xcbf29ce484222325ull;
    void byte(u8 b) { h = (h ^ b) * 0x100000001b3ull; }
    void num(u64 v)
    {
        h ^= v;
        h *= 0x9fb21c651e98df25ull;
        h ^= h >> 29;
    }
    void str(string_view s)
    {
        num(s.size());
        for (const char c : s) {
            byte(u8(c));
        }
    }
};

// -------------------------------------------------------------------------------------- Scenario

/// One step of a scenario: an operation, a fault, or a scheduling decision.
struct Rec {
    string kind;
    vector<std::pair<string, i64>> ints;
    vector<std::pair<string, string>> strs;

    i64 i(string_view key, i64 dflt = 0) const
    {
        for (const auto& [k, v] : ints) {
            if (k == key) {
                return v;
            }
        }
        return dflt;
    }
    const string& s(string_view key) const
    {
        static const string empty;
        for (const auto& [k, v] : strs) {
            if (k == key) {
                return v;
            }
        }
        return empty;
    }
    bool has(string_view key) const
    {
        for (const auto& [k, v] : ints) {
            if (k == key) {
                return true;
            }
        }
        for (const auto& [k, v] : strs) {
            if (k == key) {
                return true;
            }
        }
        return false;
    }
    Rec& set(string key, i64 v)
    {
        for (auto& [k, o] : ints) {
            if (k == key) {
                o = v;
                return *this;
            }
        }
        ints.emplace_back(std::move(key), v);
        return *this;
    }
    Rec& set(string key, string v)
    {
        for (auto& [k, o] : strs) {
            if (k == key) {
                o = std::move(v);
                return *this;
            }
        }
        strs.emplace_back(std::move(key), std::move(v));
        return *this;
    }
};

inline Rec rec(string kind)
{
    Rec r;
    r.kind = std::move(kind);
    return r;
}

struct Scenario {
    string prop;
    u64 seed = 0; // informational: where it came from
    bool cold = true; // parts of the run start in a process that has not used the library yet
    vector<Rec> recs;

    string serialize() const;
    static bool parse(string_view text, Scenario& out);
};

string escape_bytes(string_view s);
string printable(string_view s, size_t max = 160);

// --------------------------------------------------------------------------------------- Verdict

struct Verdict {
    bool ok = true;
    string cls; // violation class: stable key
    string detail; // human readable
    u64 hash = 0; // hash of the event history
    void fail(string c, string d)
    {
        if (ok) {
            ok = false;
            cls = std::move(c);
            detail = std::move(d);
        }
    }
};

// --------------------------------------------------------------------------------------- History

/// The event log of one run. Only its hash is kept, plus (on demand) the text.
struct Log {
    Hash h;
    bool keep = false;
    string text;
    u64 events = 0;
    void ev(string_view name, u64 a = 0, u64 b = 0, u64 c = 0);
    void ev_str(string_view name, string_view s);
};
extern Log* g_log;

// ---------------------------------------------------------------------------------------- Stats

struct Stats {
    std::map<string, u64> n; // fault kinds fired, probes hit, ...
    void hit(const char* k, u64 by = 1) { n[k] += by; }
};
extern Stats g_stats;
#define SIM_HIT(name) ::sim::g_stats.hit(name)

// ----------------------------------------------------------------------------------------- Seams

// Steps: one step per executed basic block of the code under test (its only clock).
extern "C" {
extern i64 sim_quota; // steps until the slow path runs
}
struct Clock {
    static u64 now(); // steps since process start
    /// Arms the step limit. When exceeded, the run ends as a "hang".
    static void arm(u64 limit);
    static void disarm();
    /// Sets how many steps from now on the simulator is willing to follow; 0 is any number.
    /// Beyond, and within the armed limit, the run is given up: it decides nothing.
    static void patience(u64 steps);
    /// Accounts for steps taken elsewhere.
    static void advance(u64 steps);
};

extern void (*g_on_give_up)();
constexpr int given_up_code = 93; // the exit status of a process that gave up

// Coverage map of the current run.
constexpr size_t cov_size = 1 << 18;
extern u8 cov_map[cov_size];
extern u32 cov_touched[cov_size];
extern size_t cov_n;
void cov_reset();

// Allocation seam: every operator new/delete of the process.
struct Alloc_Seam {
    bool active = false; // only counts while active
    i64 fail_at = -1; // fail the k-th allocation (0-based) counted from arm()
    i64 fail_for = 1; // how many consecutive ones fail
    u64 count = 0;
    u64 failed = 0;
    u64 live = 0; // live blocks allocated while active
    u64 mismatched = 0; // freed with another size or alignment than allocated
    string mismatch_text;
};
extern Alloc_Seam g_alloc;
void alloc_arm(i64 fail_at, i64 fail_for = 1);
void alloc_disarm();
struct Alloc_Pause { // the simulator's own allocations are not the system's
    bool was;
    Alloc_Pause()
        : was(g_alloc.active)
    {
        g_alloc.active = false;
    }
    ~Alloc_Pause() { g_alloc.active = was; }
};

// Captured assertion failures of the code under test.
extern string g_last_assert;

// Locale seam: a simulated LC_NUMERIC with another radix character (1: ',', 2: U+066B).
extern int g_locale_radix;
extern u64 g_strtod_calls;

[[noreturn]] void fatal(const string& cls, const string& detail);

// --------------------------------------------------------------------------- Simulated threads

/// Runs tasks as real threads of which exactly one runs at a time; the schedule decides which.
struct Switch {
    u32 task;
    u64 quantum; // steps
};
struct Thread_Sim {
    vector<std::function<void()>> tasks;
    vector<Switch> schedule;
    u64 switches = 0;
    u64 inner_switches = 0; // switches inside library code
    bool deadlock = false;
    void run();
};
/// A scheduling point in simulator code (callbacks), counted as one step.
void yield_point();
bool in_task();

// ------------------------------------------------------------------------------------- Properties

struct Ctx; // generator context (gen.hpp)
struct Property {
    const char* id;
    void (*generate)(Rng&, Ctx&, Scenario&);
    void (*execute)(const Scenario&, Verdict&);
    /// Field names of source text, for coverage feedback.
    const char* feedback_key;
};
const Property* find_property(string_view id);
void register_property(const Property& p);
struct Reg {
    Reg(const Property& p) { register_property(p); }
};

} // namespace sim
