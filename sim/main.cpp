// Entry points of the simulator binary: search (worker), replay, minimise.
#include "core.hpp"
#include "gen.hpp"
#include "hl.hpp"
#include "child.hpp"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <map>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {
void install_assert_handler();
} // namespace sim

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=8:"
           "max_allocation_size_mb=3000:symbolize=1:print_summary=1";
}
extern "C" const char* __ubsan_default_options()
{
    return "print_stacktrace=1:halt_on_error=1";
}

namespace {

using namespace sim;

std::map<string, string> args;

string arg(const string& k, const string& d = "")
{
    const auto it = args.find(k);
    return it == args.end() ? d : it->second;
}
i64 argi(const string& k, i64 d)
{
    const auto it = args.find(k);
    return it == args.end() ? d : std::strtoll(it->second.c_str(), nullptr, 10);
}

string slurp(const string& p)
{
    string out;
    FILE* f = std::fopen(p.c_str(), "rb");
    if (!f) {
        return out;
    }
    char b[65536];
    size_t n;
    while ((n = std::fread(b, 1, sizeof b, f)) > 0) {
        out.append(b, n);
    }
    std::fclose(f);
    return out;
}
void spit(const string& p, const string& s)
{
    FILE* f = std::fopen((p + ".tmp").c_str(), "wb");
    if (!f) {
        std::fprintf(stderr, "cannot write %s\n", p.c_str());
        std::_Exit(96);
    }
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
    std::rename((p + ".tmp").c_str(), p.c_str());
}

u64 g_patience = 0;

void run_scenario(const Property& p, const Scenario& sc, Verdict& v, bool keep_log, string* log_text)
{
    Log log;
    log.keep = keep_log;
    g_log = &log;
    cov_reset();
    g_last_assert.clear();
    g_locale_radix = 0;
    Clock::patience(g_patience);
    p.execute(sc, v);
    Clock::disarm();
    Clock::patience(0);
    v.hash = log.h.h;
    if (log_text) {
        *log_text = log.text;
    }
    g_log = nullptr;
}

string json_str(string_view s)
{
    string r = "\"";
    for (const char ch : s) {
        const u8 c = u8(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += ch;
        }
    }
    return r + "\"";
}

string describe(const Scenario& sc)
{
    string s;
    for (const auto& r : sc.recs) {
        if (!s.empty()) {
            s += "; ";
        }
        s += r.kind;
        for (const auto& [k, v] : r.ints) {
            s += " " + k + "=" + std::to_string(v);
        }
        for (const auto& [k, v] : r.strs) {
            s += " " + k + "=" + printable(v, 60);
        }
        if (s.size() > 700) {
            return s.substr(0, 700) + " ...";
        }
    }
    return s;
}

// What a worker leaves behind when it gives up: the number of the run.
char g_skip_path[4096] {};
i64 g_run_index = 0;

void leave_index()
{
    const int fd = open(g_skip_path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    char b[32];
    const int n = std::snprintf(b, sizeof b, "%lld\n", (long long)g_run_index);
    if (fd < 0 || write(fd, b, size_t(n)) != n) {
        _exit(96);
    }
    close(fd);
}

volatile char* g_cur = nullptr;
constexpr size_t cur_size = size_t(16) << 20;

void publish(const string& s)
{
    if (g_cur == nullptr) {
        return;
    }
    const size_t n = std::min(s.size(), cur_size - 16);
    std::memcpy(const_cast<char*>(g_cur) + 8, s.data(), n);
    const u64 len = n;
    std::memcpy(const_cast<char*>(g_cur), &len, 8);
}

u64 hash_str(string_view s)
{
    Hash h;
    h.str(s);
    return h.h;
}

int worker()
{
    const string prop = arg("prop");
    const Property* const p = find_property(prop);
    if (!p) {
        std::fprintf(stderr, "unknown property %s\n", prop.c_str());
        return 96;
    }
    const u64 seed = u64(argi("seed", 1));
    const u64 w = u64(argi("worker", 0));
    const i64 runs = argi("runs", 1000);
    const i64 start = argi("start", 0);
    const double cap = std::strtod(arg("cap", "60").c_str(), nullptr);
    const string out = arg("out");
    const bool cold = argi("cold", 1) != 0;
    FILE* const history = args.count("history") ? std::fopen(arg("history").c_str(), "wb") : nullptr;
    const bool dump_hashes = argi("dump-hashes", 0) != 0;
    if (args.count("cur")) {
        const int fd = open(arg("cur").c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, cur_size) != 0) {
            return 96;
        }
        g_cur = static_cast<char*>(mmap(nullptr, cur_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    std::snprintf(g_skip_path, sizeof g_skip_path, "%s.skip", out.c_str());
    g_on_give_up = leave_index;
    static Ctx ctx;
    ctx.load(arg("corpus"), arg("dict"));

    std::unordered_set<u64> histories;
    std::set<u32> edges;
    vector<string> samples;
    string hashes;
    u64 steps0 = Clock::now();
    u64 events = 0;
    u64 faulted = 0;
    const auto t0 = std::chrono::steady_clock::now();
    const auto elapsed = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    };
    i64 i = start;
    bool violated = false;
    string vio;
    for (; i < runs; ++i) {
        if ((i & 7) == 0 && elapsed() > cap) {
            break;
        }
        g_run_index = i;
        const u64 s = mix(mix(seed, hash_str(prop)), mix(w, u64(i)));
        Rng rng { s };
        Scenario sc;
        sc.prop = prop;
        sc.seed = s;
        sc.cold = cold;
        p->generate(rng, ctx, sc);
        if (g_cur) {
            publish(sc.serialize());
        }
        if (history) {
            const string h = sc.serialize();
            std::fwrite(h.data(), 1, h.size(), history);
            std::fflush(history);
        }
        const auto before = g_stats.n;
        Verdict v;
        run_scenario(*p, sc, v, false, nullptr);
        histories.insert(v.hash);
        if (dump_hashes) {
            char b[40];
            std::snprintf(b, sizeof b, "%016llx\n", (unsigned long long)v.hash);
            hashes += b;
        }
        for (const auto& r : sc.recs) {
            if (r.kind == "fault") {
                ++faulted;
                break;
            }
        }
        if (ctx.feedback()) {
            for (const auto& r : sc.recs) {
                if (r.kind == "src" && r.has("text")) {
                    const int lang = int(r.i("lang"));
                    auto& pool = ctx.pool[size_t(lang > 0 && lang < lang_count ? lang : 10)];
                    if (pool.size() < 4000 && r.s("text").size() < 20000) {
                        pool.push_back(r.s("text"));
                        ++ctx.pool_adds;
                    }
                    break;
                }
            }
        }
        if (samples.size() < 3 && (i - start) % 97 == 13) {
            samples.push_back(describe(sc));
        }
        if (!v.ok) {
            violated = true;
            spit(out + ".violation", sc.serialize());
            vio = "{\"cls\":" + json_str(v.cls) + ",\"detail\":" + json_str(v.detail) + ",\"run\":"
                + std::to_string(i) + "}";
            ++i;
            break;
        }
    }
    size_t covered = 0;
    for (const u8 b : ctx.virgin) {
        covered += b != 0;
    }
    string j = "{";
    j += "\"runs\":" + std::to_string(i - start);
    j += ",\"next\":" + std::to_string(i);
    j += ",\"wall\":" + std::to_string(elapsed());
    j += ",\"steps\":" + std::to_string(Clock::now() - steps0);
    j += ",\"events\":" + std::to_string(events);
    j += ",\"runs_with_faults\":" + std::to_string(faulted);
    j += ",\"histories\":" + std::to_string(histories.size());
    j += ",\"coverage_points\":" + std::to_string(covered);
    j += ",\"pool\":" + std::to_string(ctx.pool_adds);
    j += ",\"stats\":{";
    bool first = true;
    for (const auto& [k, n] : g_stats.n) {
        j += (first ? "" : ",") + json_str(k) + ":" + std::to_string(n);
        first = false;
    }
    j += "},\"samples\":[";
    for (size_t k = 0; k < samples.size(); ++k) {
        j += (k ? "," : "") + json_str(samples[k]);
    }
    j += "],\"violation\":" + (violated ? vio : string("null")) + "}";
    spit(out, j);
    if (dump_hashes) {
        spit(out + ".hashes", hashes);
    }
    if (args.count("save-pool")) {
        for (int l = 1; l < lang_count; ++l) {
            string pack;
            for (const auto& d : ctx.pool[size_t(l)]) {
                pack += std::to_string(d.size()) + "\n" + d;
            }
            spit(arg("save-pool") + "." + std::to_string(l) + ".pack", pack);
        }
    }
    return 0;
}

/// Of the texts given for one language, keeps those that reach something new, small ones first.
int distill_main()
{
    const int lang = std::atoi(arg("lang").c_str());
    const size_t budget = size_t(std::atoll(arg("budget").c_str()));
    vector<string> docs; // the first ones are there anyway
    size_t there = 0;
    for (const char* const which : { "base", "in" }) {
        const string data = slurp(arg(which));
        there = docs.size();
        for (size_t p = 0; p < data.size();) {
            const size_t e = data.find('\n', p);
            const size_t n = size_t(std::strtoull(data.c_str() + p, nullptr, 10));
            docs.push_back(data.substr(e + 1, n));
            p = e + 1 + n;
        }
    }
    std::stable_sort(docs.begin() + i64(there), docs.end(), [](const string& a, const string& b) {
        return a.size() < b.size();
    });
    static Ctx ctx;
    const Property* const p = find_property("C05");
    string out;
    size_t kept = 0;
    for (size_t k = 0; k < docs.size(); ++k) {
        const string& d = docs[k];
        Scenario sc;
        sc.prop = "C05";
        sc.seed = 1;
        Rec s = rec("src");
        s.set("doc", 0);
        s.set("lang", lang);
        s.set("flags", 0);
        s.set("text", d);
        sc.recs.push_back(s);
        Rec run = rec("run");
        run.set("html", 0);
        run.set("tokcap", 4096);
        run.set("textcap", 4096);
        sc.recs.push_back(run);
        Verdict v;
        run_scenario(*p, sc, v, false, nullptr);
        if (ctx.feedback() && k >= there && out.size() + d.size() < budget) {
            out += std::to_string(d.size()) + "\n" + d;
            ++kept;
        }
    }
    std::printf("lang %d: %zu of %zu kept, %zu bytes\n", lang, kept, docs.size() - there, out.size());
    spit(arg("out"), out);
    return 0;
}

/// A replay file holds one scenario, or a history: several, run one after the other in one process.
vector<Scenario> parse_history(const string& text)
{
    vector<Scenario> out;
    size_t p = 0;
    while (p < text.size()) {
        const size_t e = text.find("\nscenario ", p);
        const size_t end = e == string::npos ? text.size() : e + 1;
        Scenario sc;
        if (!Scenario::parse(string_view(text).substr(p, end - p), sc)) {
            return {};
        }
        out.push_back(std::move(sc));
        p = end;
    }
    return out;
}

int replay()
{
    const vector<Scenario> history = parse_history(slurp(arg("file")));
    if (history.empty()) {
        std::fprintf(stderr, "cannot parse %s\n", arg("file").c_str());
        return 96;
    }
    const int n = int(argi("times", 1));
    for (int i = 0; i < n; ++i) {
        Verdict v;
        u64 hash = 0;
        for (const Scenario& sc : history) {
            const Property* const p = find_property(sc.prop);
            if (!p) {
                return 96;
            }
            v = {};
            string log;
            run_scenario(*p, sc, v, argi("log", 0) != 0, &log);
            hash = mix(hash, v.hash);
            if (argi("log", 0)) {
                std::printf("%s", log.c_str());
            }
            if (!v.ok) {
                break;
            }
        }
        std::printf(
            "REPLAY {\"ok\":%s,\"cls\":%s,\"detail\":%s,\"hash\":\"%016llx\"}\n",
            v.ok ? "true" : "false", json_str(v.cls).c_str(), json_str(v.detail).c_str(),
            (unsigned long long)hash
        );
        std::fflush(stdout);
    }
    return 0;
}

// ----------------------------------------------------------------------------------- minimisation

/// Class of what happens when the scenario runs in a child process.
string classify_stderr(const string& err)
{
    size_t p = err.find("SIM-FATAL ");
    if (p != string::npos) {
        const size_t e = err.find(" :: ", p);
        return err.substr(p + 10, e - p - 10);
    }
    p = err.find("ERROR: AddressSanitizer: ");
    if (p != string::npos) {
        p += 25;
        return "crash:" + err.substr(p, err.find_first_of(" \n", p) - p);
    }
    p = err.find("runtime error: ");
    if (p != string::npos) {
        p += 15;
        string m = err.substr(p, err.find('\n', p) - p);
        string r;
        for (const char c : m) {
            if (c >= '0' && c <= '9') {
                if (r.empty() || r.back() != '#') {
                    r += '#';
                }
            }
            else {
                r += c;
            }
            if (r.size() > 40) {
                break;
            }
        }
        return "crash:ubsan:" + r;
    }
    if (err.find("Assertion '") != string::npos) {
        return "crash:glibcxx-assertion";
    }
    if (err.find("terminate called") != string::npos) {
        return "crash:terminate";
    }
    return "crash:unknown";
}

string try_class(const Property& p, const Scenario& sc)
{
    char path[] = "/tmp/simmin.XXXXXX";
    const int fd = mkstemp(path);
    unlink(path);
    int pipefd[2];
    if (pipe(pipefd) != 0) {
        return "infrastructure";
    }
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
        dup2(fd, 2);
        close(pipefd[0]);
        alarm(20);
        Verdict v;
        run_scenario(p, sc, v, false, nullptr);
        const string r = v.ok ? string("OK") : v.cls;
        if (write(pipefd[1], r.data(), r.size()) < 0) {
            _exit(95);
        }
        _exit(0);
    }
    close(pipefd[1]);
    string got;
    char b[4096];
    ssize_t n;
    while ((n = read(pipefd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) {
        if (n > 0) {
            got.append(b, size_t(n));
        }
    }
    close(pipefd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        close(fd);
        return got;
    }
    string err;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, b, sizeof b)) > 0) {
        err.append(b, size_t(n));
        if (err.size() > 1'000'000) {
            break;
        }
    }
    close(fd);
    if (WIFEXITED(st) && WEXITSTATUS(st) == given_up_code) {
        return "given-up";
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        return "timeout";
    }
    return classify_stderr(err);
}

int minimise()
{
    Scenario sc;
    if (!Scenario::parse(slurp(arg("file")), sc)) {
        return 96;
    }
    const Property* const p = find_property(sc.prop);
    if (!p) {
        return 96;
    }
    const double budget = std::strtod(arg("budget", "20").c_str(), nullptr);
    const auto t0 = std::chrono::steady_clock::now();
    u64 tried = 0;
    const auto over = [&] {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget;
    };
    const string target = arg("cls").empty() ? try_class(*p, sc) : arg("cls");
    const auto fails = [&](const Scenario& c) {
        ++tried;
        return try_class(*p, c) == target;
    };
    if (target == "OK" || target == "given-up" || target == "timeout" || !fails(sc)) {
        std::printf("MINIMISE not-reproduced\n");
        return 0;
    }
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // 1. drop records, in shrinking blocks
        for (size_t block = std::max<size_t>(1, sc.recs.size() / 2); block >= 1 && !over(); block /= 2) {
            for (size_t i = 0; i < sc.recs.size() && !over();) {
                Scenario c = sc;
                const size_t n = std::min(block, c.recs.size() - i);
                c.recs.erase(c.recs.begin() + i64(i), c.recs.begin() + i64(i + n));
                if (fails(c)) {
                    sc = std::move(c);
                    progress = true;
                }
                else {
                    i += block;
                }
            }
            if (block == 1) {
                break;
            }
        }
        // 2. shorten strings
        for (size_t i = 0; i < sc.recs.size() && !over(); ++i) {
            for (size_t k = 0; k < sc.recs[i].strs.size() && !over(); ++k) {
                if (sc.recs[i].strs[k].first == "op" || sc.recs[i].strs[k].first == "mode") {
                    continue;
                }
                size_t block = std::max<size_t>(1, sc.recs[i].strs[k].second.size() / 2);
                while (!over()) {
                    bool any = false;
                    size_t at = 0;
                    while (at < sc.recs[i].strs[k].second.size() && !over()) {
                        Scenario c = sc;
                        c.recs[i].strs[k].second.erase(at, block);
                        if (fails(c)) {
                            sc = std::move(c);
                            progress = true;
                            any = true;
                        }
                        else {
                            at += block;
                        }
                    }
                    if (block == 1) {
                        if (!any) {
                            break;
                        }
                        // one more pass at granularity 1 is done by the outer loop
                        break;
                    }
                    block = std::max<size_t>(1, block / 2);
                }
            }
        }
        // 3. shrink numbers
        for (size_t i = 0; i < sc.recs.size() && !over(); ++i) {
            for (size_t k = 0; k < sc.recs[i].ints.size() && !over(); ++k) {
                const string& key = sc.recs[i].ints[k].first;
                if (key == "doc" || key == "lang" || key == "target" || key == "id" || key == "in") {
                    continue;
                }
                const i64 v = sc.recs[i].ints[k].second;
                for (const i64 cand : { i64(0), i64(1), v / 2, v - 1 }) {
                    if (cand < 0 || cand == sc.recs[i].ints[k].second || cand > sc.recs[i].ints[k].second
                        || sc.recs[i].ints[k].second < 0) {
                        continue;
                    }
                    Scenario c = sc;
                    c.recs[i].ints[k].second = cand;
                    if (fails(c)) {
                        sc = std::move(c);
                        progress = true;
                        break;
                    }
                }
            }
        }
    }
    spit(arg("out"), sc.serialize());
    std::printf("MINIMISE ok cls=%s tried=%llu\n", target.c_str(), (unsigned long long)tried);
    return 0;
}

/// Of the texts given for one language ("before\0unit\0after"), keeps those that take little stack however often the unit is
/// repeated, a tenth of what the check allows.
int flatten_main()
{
    const int lang = std::atoi(arg("lang").c_str());
    const size_t most = size_t(std::atoll(arg("most").c_str()));
    const string data = slurp(arg("in"));
    string out;
    size_t kept = 0;
    for (size_t p = 0; p < data.size() && kept < most;) {
        const size_t e = data.find('\n', p);
        const size_t n = size_t(std::strtoull(data.c_str() + p, nullptr, 10));
        const string d = data.substr(e + 1, n);
        p = e + 1 + n;
        const size_t a = d.find('\0'), b = d.find('\0', a + 1);
        std::fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0) {
            if (arg("loud") != "2") {
                fclose(stderr);
            }
            g_patience = 300'000'000;
            Log log;
            g_log = &log;
            Req q;
            q.lang = lang;
            q.tokcap = 512;
            q.textcap = 512;
            q.html = true;
            q.src = d.substr(0, a);
            while (q.src.size() < 410'000) {
                q.src += d.substr(a + 1, b - a - 1);
            }
            q.src += d.substr(b + 1);
            const string o = on_ordinary_stack(
                [&](string& x) { Packer { x }.num(u64(run_fresh(q).status)); }, size_t(200) << 10
            );
            Unpacker u { o };
            _exit(u.num() != 0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            out += std::to_string(d.size()) + "\n" + d;
            ++kept;
        }
        else if (arg("loud") == "1") {
            std::printf("lang %d: %s\n", lang, d.c_str() + a + 1);
        }
    }
    spit(arg("out"), out);
    std::printf("lang %d: %zu kept\n", lang, kept);
    return 0;
}

int g_result = 0;
void* run_main(void* a)
{
    const string mode = static_cast<const char*>(a);
    install_assert_handler();
    g_patience = u64(std::max<i64>(0, argi("patience", 1'500'000'000)));
    if (mode == "worker") {
        g_result = worker();
    }
    else if (mode == "distill") {
        g_result = distill_main();
    }
    else if (mode == "flatten") {
        g_result = flatten_main();
    }
    else if (mode == "replay") {
        g_result = replay();
    }
    else if (mode == "minimise") {
        g_result = minimise();
    }
    else {
        g_result = 96;
    }
    return nullptr;
}

} // namespace

int main(int argc, char** argv)
{
    if (argc < 2) {
        return 96;
    }
    for (int i = 2; i < argc; ++i) {
        string s = argv[i];
        const size_t eq = s.find('=');
        if (eq != string::npos) {
            args[s.substr(0, eq)] = s.substr(eq + 1);
        }
    }
    // A large stack for everything: recursion depth is bounded by input size, not by the simulator.
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, size_t(1) << 30);
    pthread_t t;
    if (pthread_create(&t, &attr, run_main, argv[1]) != 0) {
        return 96;
    }
    pthread_join(t, nullptr);
    std::fflush(stdout);
    std::_Exit(g_result);
}
