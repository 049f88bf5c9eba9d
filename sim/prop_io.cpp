// C13 (file loading), C14 (command-line tool), C19 (file handles) on a simulated disk.
#include "disk.hpp"
#include "gen.hpp"
#include "hl.hpp"

#include "ulight/impl/io.hpp"

#include <algorithm>
#include <array>
#include <cerrno>
#include <cstdio>
#include <expected>
#include <iostream>
#include <optional>
#include <set>

namespace sim {
namespace {

using ulight::IO_Error_Code;

void plan_from(const Rec& r, Stream_Plan& p)
{
    const string& op = r.s("op");
    if (op == "open-fails") {
        p.open_errno = int(r.i("errno", 13));
    }
    else if (op == "short-reads") {
        p.short_seed = u64(r.i("seed"));
        p.short_max = u64(std::max<i64>(1, r.i("max", 1)));
    }
    else if (op == "read-error") {
        p.read_error_at = r.i("at");
        p.read_errno = int(r.i("errno", 5));
        p.read_error_once = r.i("once") != 0;
    }
    else if (op == "write-error") {
        p.write_error_at = r.i("at");
        p.write_errno = int(r.i("errno", 28));
        p.write_error_once = r.i("once") != 0;
    }
    else if (op == "close-error") {
        p.close_error = true;
    }
}

bool plans_open(const std::map<string, Stream_Plan>& plans, const string& name)
{
    const auto it = plans.find(name);
    return it == plans.end() || it->second.open_errno == 0;
}

string file_path(const Rec& r)
{
    // "pad" makes the path longer without changing what it names
    string p;
    const size_t want = size_t(std::max<i64>(0, r.i("pathlen")));
    const string name = r.s("name");
    if (want > name.size()) {
        const size_t extra = want - name.size();
        for (size_t i = 0; i + 1 < extra; i += 2) {
            p += "./";
        }
        if (extra % 2) {
            p += p.empty() ? "" : "/";
        }
    }
    if (r.has("nul")) {
        // a name that no file can have: the part in front of the zero byte names one that exists
        return p + name + string(1, '\0') + string(size_t(std::clamp<i64>(r.i("nul"), 0, 9000)), 'x');
    }
    return p + name;
}

void build_world(World& w, const Scenario& sc)
{
    for (const auto& r : sc.recs) {
        if (r.kind == "src") {
            string content = r.s("text");
            if (r.has("repeat")) {
                const string unit = content;
                content.clear();
                const size_t n = size_t(r.i("repeat"));
                while (!unit.empty() && content.size() < n) {
                    content += unit;
                }
                content.resize(n);
            }
            content = apply_faults(content, sc.recs, r.i("doc"));
            if (r.i("missing")) {
                continue;
            }
            if (r.i("dir")) {
                w.files[r.s("name")].is_directory = true;
                continue;
            }
            w.add(r.s("name"), std::move(content));
        }
        else if (r.kind == "disk") {
            plan_from(r, w.plans[r.s("name")]);
        }
    }
}

// ------------------------------------------------------------------------------------------- C13

string code_name(int c)
{
    switch (c) {
    case -1: return "success";
    case int(IO_Error_Code::cannot_open): return "cannot_open";
    case int(IO_Error_Code::read_error): return "read_error";
    case int(IO_Error_Code::write_error): return "write_error";
    case int(IO_Error_Code::corrupted): return "corrupted";
    }
    return std::to_string(c);
}


struct Load_Result {
    int code = -1; // -1: success
    bool threw = false;
    string got; // bytes
    bool prefix_kept = true;
};

template <typename Byte>
Load_Result load_bytes(string_view prefix, const string& path)
{
    Load_Result res;
    vector<Byte> v;
    for (const char c : prefix) {
        v.push_back(Byte(c));
    }
    const auto r = ulight::file_to_bytes(v, path);
    res.code = r ? -1 : int(r.error());
    if (v.size() < prefix.size()) {
        res.prefix_kept = false;
    }
    else {
        for (size_t i = 0; i < prefix.size(); ++i) {
            res.prefix_kept &= v[i] == Byte(prefix[i]);
        }
        for (size_t i = prefix.size(); i < v.size(); ++i) {
            res.got += char(v[i]);
        }
    }
    return res;
}

/// Called with the number of the chunk that a chunk-wise load has just delivered.
using At_Chunk = std::function<void(i64)>;

Load_Result do_load(const Rec& r, const string& path_string, const At_Chunk& at_chunk, bool alone)
{
    // the path is not terminated: it ends where its memory ends
    char* const mem = static_cast<char*>(std::malloc(std::max<size_t>(1, path_string.size())));
    std::memcpy(mem, path_string.data(), path_string.size());
    struct Free {
        char* p;
        ~Free() { std::free(p); }
    } free_mem { mem };
    const string_view path { mem, path_string.size() };
    const string prefix = r.s("prefix");
    Load_Result res;
    const string& how = r.s("how");
    if (how == "chunks") {
        const i64 fail_at = r.i("fail_at", -1);
        i64 k = 0;
        const auto consume = [&](std::span<const std::byte> chunk) {
            if (g_log) {
                g_log->ev("chunk", chunk.size());
            }
            yield_point();
            if (k++ == fail_at) {
                throw_as(int(r.i("exc")), "chunk-consumer");
            }
            if (at_chunk) {
                at_chunk(k - 1);
            }
            res.got.append(reinterpret_cast<const char*>(chunk.data()), chunk.size());
        };
        try {
            const auto x = ulight::file_to_bytes_chunked(consume, path);
            res.code = x ? -1 : int(x.error());
        } catch (...) {
            res.threw = true;
            if (fail_at < 0 || thrown_kind() != int(unsigned(r.i("exc")) % exc_count)) {
                throw;
            }
        }
    }
    else if (how == "char") {
        return load_bytes<char>(prefix, string(path));
    }
    else if (how == "byte") {
        return load_bytes<std::byte>(prefix, string(path));
    }
    else if (how == "uchar") {
        return load_bytes<unsigned char>(prefix, string(path));
    }
    else if (how == "utf8-into" || how == "utf8-or-error") {
        vector<char8_t> v;
        for (const char c : prefix) {
            v.push_back(char8_t(c));
        }
        if (how == "utf8-into" || !alone) { // (the other one needs standard output for itself)
            const auto x = ulight::load_utf8_file(v, path);
            res.code = x ? -1 : int(x.error());
        }
        else {
            struct Null : std::streambuf {
                string text;
                int overflow(int c) override
                {
                    text += char(c);
                    return c;
                }
            } null;
            auto* const old = std::cout.rdbuf(&null);
            const bool ok = ulight::load_utf8_file_or_error(v, path);
            std::cout.rdbuf(old);
            res.code = ok ? -1 : -2;
            if (ok != null.text.empty()) {
                res.code = -3;
            }
        }
        if (v.size() < prefix.size()) {
            res.prefix_kept = false;
        }
        else {
            for (size_t i = 0; i < prefix.size(); ++i) {
                res.prefix_kept &= v[i] == char8_t(prefix[i]);
            }
            for (size_t i = prefix.size(); i < v.size(); ++i) {
                res.got += char(v[i]);
            }
        }
    }
    else if (how == "utf32") {
        const auto x = ulight::load_utf32le_file(path);
        res.code = x ? -1 : int(x.error());
        if (x) {
            for (const char32_t c : *x) {
                for (int b = 0; b < 4; ++b) {
                    res.got += char(u8(u32(c) >> (8 * b)));
                }
            }
        }
    }
    else {
        const auto x = ulight::load_utf8_file(path);
        res.code = x ? -1 : int(x.error());
        if (x) {
            for (const char8_t c : *x) {
                res.got += char(c);
            }
        }
    }
    return res;
}

struct Load_Run {
    const Scenario& sc;
    World& w;
    const std::map<string, Stream_Plan> plans;
    vector<const Rec*> loads;
    struct Done {
        Load_Result res;
        bool started = false, finished = false;
        bool left_open = false;
    };
    vector<Done> done;
    bool concurrent = false;

    Load_Run(const Scenario& sc, World& w)
        : sc(sc)
        , w(w)
        , plans(w.plans)
    {
        for (const auto& r : sc.recs) {
            if (r.kind == "load") {
                loads.push_back(&r);
            }
        }
        done.resize(loads.size());
    }

    const Rec* source(const Rec& r) const
    {
        for (const auto& s : sc.recs) {
            if (s.kind == "src" && s.i("doc") == r.i("doc")) {
                return &s;
            }
        }
        return nullptr;
    }

    bool nested(const Rec& r) const
    {
        return r.has("in") && r.i("in") >= 0 && r.i("in") < i64(loads.size());
    }

    void run(size_t id, int depth)
    {
        const Rec& r = *loads[id];
        const Rec* const src = source(r);
        if (!src || done[id].started) {
            return;
        }
        done[id].started = true;
        At_Chunk at_chunk;
        if (depth < 3) {
            at_chunk = [&](i64 k) {
                for (size_t n = 0; n < loads.size(); ++n) {
                    if (n != id && nested(*loads[n]) && size_t(loads[n]->i("in")) == id && loads[n]->i("at") == k
                        && !done[n].started) {
                        SIM_HIT("probe:load-inside-chunk-consumer");
                        run(n, depth + 1);
                    }
                }
            };
        }
        const int outer = t_stream_owner;
        t_stream_owner = int(id);
        Load_Result res = do_load(r, file_path(*src), at_chunk, !concurrent && depth == 0);
        t_stream_owner = outer;
        for (const Open_Stream* const s : w.streams) {
            done[id].left_open |= s->owner == int(id) && s->open;
        }
        if (g_log) {
            g_log->ev("loaded", u64(res.code), res.got.size());
            g_log->ev_str("bytes", res.got);
        }
        done[id].res = std::move(res);
        done[id].finished = true;
    }

    u64 step_limit() const
    {
        u64 n = 0;
        for (const Rec* const r : loads) {
            const Rec* const src = source(*r);
            if (!src) {
                continue;
            }
            const auto f = w.files.find(src->s("name"));
            n += 50'000'000 + 4000 * (f != w.files.end() ? f->second.content.size() : 0);
        }
        return n;
    }
};

void check_load(const Load_Run& run, size_t id, Verdict& v)
{
    const World& w = run.w;
    const auto& plans = run.plans;
    const Rec& r = *run.loads[id];
    const Load_Result& res = run.done[id].res;
    const Rec* const src = run.source(r);
    const string& how = r.s("how");
    const string path = file_path(*src);
    const string name = src->s("name");
    const Open_Stream* st = nullptr;
    for (const Open_Stream* const s : w.streams) {
        st = s->owner == int(id) ? s : st;
    }
    const string conf = "load " + std::to_string(id) + " (" + how + ", path of " + std::to_string(path.size())
        + " bytes" + (run.nested(r) ? ", inside of another load" : run.concurrent ? ", concurrent with others" : "")
        + "): ";
    const auto bad = [&](const string& cls, const string& what) { v.fail(cls, conf + what); };

    if (run.done[id].left_open) {
        bad("file-left-open", "the file was not closed");
        return;
    }
    if (!res.prefix_kept) {
        bad("container-damaged", "the bytes that were in the container before changed");
        return;
    }
    const bool utf8 = how.starts_with("utf8");
    const auto file = w.files.find(name);
    const bool exists = file != w.files.end() && path.size() < 4096 && !src->has("nul");
    if (src->has("nul")) {
        SIM_HIT("probe:path-with-zero-byte");
    }
    const bool opens = exists && plans_open(plans, name);
    const bool is_dir = exists && file->second.is_directory;
    const string& content = file != w.files.end() ? file->second.content : name;
    const u64 errors = st ? st->read_errors : 0;
    const bool persistent = st != nullptr && errors != 0
        && (is_dir || !(plans.count(name) && plans.at(name).read_error_once));

    if (res.threw) {
        SIM_HIT("probe:consumer-exception-propagated");
        if (!content.starts_with(res.got)) {
            bad("wrong-data", "the chunks delivered before the failure are not a prefix of the file");
        }
        return;
    }
    // expected outcome
    int want = -1;
    bool either = false;
    if (!opens) {
        want = int(IO_Error_Code::cannot_open);
    }
    else if (persistent) {
        want = int(IO_Error_Code::read_error);
    }
    else {
        if (errors != 0) {
            either = true; // a transient error may be reported or retried
        }
        if (utf8 && !utf8_valid(content)) {
            want = int(IO_Error_Code::corrupted);
        }
        else if (how == "utf32" && content.size() % 4 != 0) {
            want = int(IO_Error_Code::corrupted);
        }
    }
    int got = res.code;
    if (got == -3) {
        bad("wrong-result", "the message on standard output does not match the result");
        return;
    }
    if (got == -2) {
        got = want == -1 && !either ? -2 : want; // only failure is known
        if (want == -1 && either) {
            got = int(IO_Error_Code::read_error);
        }
    }
    const bool acceptable = got == want || (either && got == int(IO_Error_Code::read_error));
    if (!acceptable) {
        bad(got == -1 ? "failure-not-reported" : "wrong-result",
            "result is " + code_name(got) + ", expected " + code_name(want)
                + (st && errors ? " (reading failed at byte " + std::to_string(st->pos) + ")" : "")
                + ", file of " + std::to_string(content.size()) + " bytes");
        return;
    }
    if (got == -1 && res.got != content) {
        bad("wrong-data", "success with " + std::to_string(res.got.size()) + " bytes that are not the file's "
            + std::to_string(content.size()) + " bytes; " + first_diff(res.got, content));
        return;
    }
    if (got != -1 && (how == "chunks" || how == "char" || how == "byte" || how == "uchar")
        && !content.starts_with(res.got)) {
        bad("wrong-data", "the bytes delivered before the failure are not a prefix of the file");
        return;
    }
    if (got == -1) {
        SIM_HIT("probe:loads-succeeded");
        if (content.size() >= 8192 && content.size() % 8192 == 0) {
            SIM_HIT("probe:size-multiple-of-block");
        }
    }
    else {
        SIM_HIT("probe:loads-failed");
    }
}

void exec_c13(const Scenario& sc, Verdict& v)
{
    World w;
    build_world(w, sc);
    Load_Run run { sc, w };
    std::map<i64, vector<size_t>> tasks;
    for (size_t id = 0; id < run.loads.size(); ++id) {
        if (!run.nested(*run.loads[id])) {
            tasks[run.loads[id]->i("task")].push_back(id);
        }
    }
    run.concurrent = tasks.size() > 1;
    Clock::arm(run.step_limit());
    if (run.concurrent) {
        Thread_Sim ts;
        for (const auto& [t, ids] : tasks) {
            ts.tasks.push_back([&run, &ids] {
                for (const size_t id : ids) {
                    run.run(id, 0);
                }
            });
        }
        for (const auto& r : sc.recs) {
            if (r.kind == "switch") {
                ts.schedule.push_back({ u32(r.i("to")), u64(std::max<i64>(1, r.i("steps"))) });
            }
        }
        ts.run();
        g_stats.hit("schedule:switches-between-tasks", ts.switches > ts.tasks.size() ? ts.switches - ts.tasks.size() : 0);
        g_stats.hit("schedule:preemptions-inside-the-library", ts.inner_switches);
        SIM_HIT("probe:concurrent-loads");
    }
    else {
        for (const auto& [t, ids] : tasks) {
            for (const size_t id : ids) {
                run.run(id, 0);
                if (w.open_count() != 0) {
                    v.fail("file-left-open", "load " + std::to_string(id) + ": a file was not closed");
                    return;
                }
            }
        }
    }
    Clock::disarm();
    if (w.open_count() != 0) {
        v.fail("file-left-open", "a file was not closed");
        return;
    }
    if (w.double_closes || w.foreign_closes) {
        v.fail("file-closed-twice", "a stream that is not open was closed");
        return;
    }
    for (size_t id = 0; id < run.loads.size() && v.ok; ++id) {
        if (run.done[id].finished) {
            check_load(run, id, v);
        }
    }
}

size_t gen_file_size(Rng& r)
{
    if (r.chance(1, 100)) { // past what 16 bits count, and large caches and blocks
        const u64 base = u64(1) << r.range(16, r.chance(1, 4) ? 21 : 17);
        return size_t(base * r.range(1, 3) + r.below(9) - 4);
    }
    switch (r.below(6)) {
    case 0: return size_t(r.below(40));
    case 1:
    case 2: { // around multiples of the block size
        const i64 b = i64(8192 * r.range(1, 4)) + i64(r.below(9)) - 4;
        return size_t(b);
    }
    case 3: return size_t(4096 * r.range(1, 4)) + r.below(3) - 1;
    default: return size_t(r.logu(40000));
    }
}

void gen_disk_faults(Rng& r, Scenario& sc, const string& name, size_t size, bool read)
{
    static const int errnos[] = { EIO, EINTR, EISDIR, ESTALE, EAGAIN, EBADF };
    static const int open_errnos[] = { EACCES, EMFILE, ENOENT, EINTR, ELOOP, EIO };
    const auto add = [&](const char* op) -> Rec& {
        Rec d = rec("disk");
        d.set("name", name);
        d.set("op", string(op));
        sc.recs.push_back(d);
        return sc.recs.back();
    };
    if (read) {
        if (r.chance(1, 2)) {
            add("short-reads").set("seed", i64(r.below(1 << 20))).set("max", i64(r.logu(9000)));
        }
        if (r.chance(1, 3)) {
            const u64 at = r.chance(1, 3) ? r.below(4) * 8192 + r.below(3) : r.below(size + 2);
            add("read-error").set("at", i64(at)).set("errno", errnos[r.below(6)]).set("once", i64(r.chance(1, 3)));
        }
        if (r.chance(1, 20)) {
            add("open-fails").set("errno", open_errnos[r.below(6)]);
        }
        if (r.chance(1, 6)) {
            add("close-error");
        }
    }
}

void gen_c13(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned files = unsigned(r.range(1, 2));
    for (unsigned f = 0; f < files; ++f) {
        const string name = "f" + std::to_string(f);
        Rec s = rec("src");
        s.set("doc", i64(f));
        s.set("name", name);
        const bool valid = r.chance(2, 3);
        const u64 k = r.below(10);
        string text;
        size_t size = gen_file_size(r);
        if (k < 4) {
            // multi-byte characters across block boundaries
            static const char* const units[] = { "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc3\xa9", "a\xe2\x82\xac",
                                                 "ab\xf0\x9f\x98\x80", "x", "0123456789\n", "\xc3\xa9x" };
            text = units[r.below(8)];
            s.set("text", text);
            if (valid) {
                size -= size % text.size(); // whole characters
            }
            s.set("repeat", i64(size));
        }
        else if (k < 8) {
            text = gen_text(r, c, gen_lang(r), { .max_len = std::max<size_t>(1, size), .valid_utf8 = valid });
            s.set("text", text);
        }
        else {
            text = random_string(r, c, size, valid);
            s.set("text", text);
        }
        if (r.chance(1, 20)) {
            s.set("missing", 1);
        }
        else if (r.chance(1, 25)) {
            s.set("dir", 1);
        }
        if (r.chance(1, 6)) {
            static const i64 lens[] = { 4094, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 9000, 20000, 300 };
            s.set("pathlen", r.chance(1, 2) ? lens[r.below(11)] : i64(r.logu(10000)));
        }
        if (r.chance(1, 40)) {
            s.set("nul", i64(r.logu(5000) - 1));
        }
        sc.recs.push_back(s);
        if (r.chance(1, 3)) {
            gen_faults(r, sc, s.has("repeat") ? string(size, 'x') : text, i64(f), 1);
        }
        gen_disk_faults(r, sc, name, s.has("repeat") ? size : text.size(), true);
    }
    static const char* const hows[] = { "chunks", "chunks", "char", "byte", "uchar", "utf8-into", "utf8-into",
                                        "utf8", "utf8", "utf32", "utf8-or-error" };
    const unsigned n = unsigned(r.range(1, 4));
    const unsigned ntasks = r.chance(1, 3) ? unsigned(r.range(2, 3)) : 1;
    const bool nest = r.chance(1, 4);
    const size_t first_load = sc.recs.size();
    for (unsigned i = 0; i < n; ++i) {
        Rec l = rec("load");
        if (ntasks > 1) {
            l.set("task", i64(r.below(ntasks)));
        }
        if (nest && i > 0 && r.chance(1, 2)) {
            const u64 outer = r.below(i);
            sc.recs[first_load + outer].set("how", string("chunks"));
            l.set("in", i64(outer));
            l.set("at", i64(r.logu(4) - 1));
        }
        l.set("doc", i64(r.below(files)));
        l.set("how", string(hows[r.below(11)]));
        if (l.s("how") == "chunks" && r.chance(1, 4)) {
            l.set("fail_at", i64(r.below(4)));
            l.set("exc", i64(r.below(exc_count)));
        }
        if (r.chance(1, 2)) {
            l.set("prefix", random_string(r, c, 40, false));
        }
        sc.recs.push_back(l);
    }
    if (ntasks > 1) {
        const unsigned switches = unsigned(r.logu(80));
        const u64 most = r.chance(1, 2) ? 64 : 30000;
        for (unsigned k = 0; k < switches; ++k) {
            Rec s = rec("switch");
            s.set("to", i64(r.below(ntasks)));
            s.set("steps", i64(r.logu(most)));
            sc.recs.push_back(s);
        }
    }
}
const Reg c13 { { "C13", gen_c13, exec_c13, "" } };

// ------------------------------------------------------------------------------------------- C14

void exec_c14(const Scenario& sc, Verdict& v)
{
    World w;
    build_world(w, sc);
    const auto plans = w.plans;
    vector<string> args { "ulight" };
    const Rec* src = nullptr;
    const Rec* cli = nullptr;
    for (const auto& r : sc.recs) {
        if (r.kind == "src") {
            src = src ? src : &r;
        }
        if (r.kind == "cli") {
            cli = &r;
        }
    }
    if (!cli) {
        return;
    }
    string in, out;
    if (src && cli->i("args", 2) >= 1) {
        in = file_path(*src);
        args.push_back(in);
    }
    if (cli->i("args", 2) >= 2 && args.size() == 2) {
        out = cli->s("out");
        args.push_back(out);
    }
    if (cli->i("args", 2) >= 3 && args.size() == 3) {
        args.push_back("ignored");
    }
    const string in_name = src ? src->s("name") : "";
    const string content = w.files.count(in_name) ? w.files[in_name].content : string();
    const bool in_ok = src && w.files.count(in_name) && !w.files[in_name].is_directory && in.size() < 4096
        && plans_open(plans, in_name);
    const bool out_file = args.size() > 2;
    const string out_name = normal_path(out);

    g_html_alloc_fail = cli->i("alloc_fail", -1);
    g_html_alloc_failed = 0;
    Clock::arm(default_step_limit(content.size()) * 3 + 20'000'000);
    const Cli_Result res = run_cli(args);
    g_html_alloc_fail = -1;

    // what went wrong, according to the simulated environment
    string fault;
    const auto note = [&](const char* what) {
        if (fault.empty()) {
            fault = what;
        }
    };
    bool transient = false;
    if (args.size() < 2) {
        note("there is no input file");
    }
    else {
        const ulight_lang lang = ulight_lang_from_path(in.data(), in.size());
        if (lang == ULIGHT_LANG_NONE) {
            note("the language is not known");
        }
        if (!in_ok) {
            note("the input cannot be opened");
        }
        else if (!utf8_valid(content)) {
            note("the input is not valid UTF-8");
        }
    }
    u64 out_opened = 0;
    for (const Open_Stream* const s : w.streams) {
        if (s->path == in_name && s->mode[0] == 'r') {
            if (s->read_errors) {
                if (s->plan.read_error_once || (plans.count(in_name) && plans.at(in_name).read_error_once)) {
                    transient = true;
                }
                else {
                    note("reading the input failed");
                }
            }
        }
        else if (out_file && s->path == out_name) {
            ++out_opened;
            if (s->write_errors) {
                note("writing the output failed");
            }
            if (s->close_errors) {
                note("closing the output failed");
            }
        }
    }
    if (out_file && plans.count(out_name) && plans.at(out_name).open_errno) {
        note("the output cannot be opened");
    }
    if (out_file && out_opened == 0 && w.files.count(out_name) && w.files[out_name].is_directory) {
        note("the output is a directory");
    }
    if (!out_file && w.stdout_errors) {
        note("writing to standard output failed");
    }
    if (g_html_alloc_failed) {
        note("highlighting ran out of memory");
    }
    if (g_log) {
        g_log->ev("exit", u64(res.code), res.err.empty(), w.streams.size());
        g_log->ev_str("stdout", w.stdout_accepted);
    }
    const string conf = "exit status " + std::to_string(res.code) + (out_file ? " (to a file)" : " (to stdout)") + ": ";
    if (res.code == 0) {
        if (!fault.empty()) {
            v.fail("success-although-failed", conf + fault);
            return;
        }
        Req q;
        q.lang = int(ulight_lang_from_path(in.data(), in.size()));
        q.src = content;
        q.html = true;
        q.tokcap = 1024;
        q.textcap = 32768;
        const Res ref = run_fresh(q);
        string got = out_file ? w.files[out_name].content : w.stdout_accepted;
        if (ref.status != 0 || got != ref.text) {
            v.fail("wrong-output", conf + first_diff(got, ref.text));
            return;
        }
        if (out_file && !w.stdout_accepted.empty()) {
            v.fail("wrong-output", conf + "something was written to standard output as well");
            return;
        }
        SIM_HIT("probe:cli-succeeded");
    }
    else {
        if (fault.empty() && !transient) {
            v.fail("failed-for-no-reason", conf + "nothing went wrong; standard error: " + printable(res.err, 200));
            return;
        }
        if (res.err.empty()) {
            v.fail("silent-failure", conf + (fault.empty() ? "transient read error" : fault)
                + ", but nothing on standard error");
            return;
        }
        SIM_HIT("probe:cli-failed");
    }
    if (w.double_closes || w.foreign_closes) {
        v.fail("file-closed-twice", conf + "a stream was closed twice");
    }
}

void gen_c14(Rng& r, Ctx& c, Scenario& sc)
{
    static const char* const exts[]
        = { "", "cow", "cpp", "lua", "html", "css", "c", "js", "sh", "diff", "json", "jsonc", "svg", "txt",
            "tex", "latex", "asm", "ebnf", "py", "kt", "ts", "rs", "ll", "md", "java", "yml" };
    const int lang = gen_lang(r);
    string name = string("in.") + (lang < 26 ? exts[lang] : "txt");
    if (r.chance(1, 25)) {
        static const char* const odd[] = { "in", "in.", "in.unknown", "in.JSON", ".json", "in.tar.json", "in.json.gz" };
        name = odd[r.below(7)];
    }
    Rec s = rec("src");
    s.set("doc", 0);
    s.set("lang", lang);
    s.set("name", name);
    string text = gen_text(r, c, lang, { .max_len = size_t(r.chance(1, 4) ? 30000 : 2000), .valid_utf8 = r.chance(9, 10) });
    s.set("text", text);
    size_t size = text.size();
    if (lang != 7 && lang != 20 && lang != 4 && !text.empty() && r.chance(1, 60)) {
        // A large file of many like pieces. (The library looks ahead to the end of the text for
        // each possible JSX tag, which is slow.)
        text = gen_text(r, c, lang, { .max_len = 400, .valid_utf8 = true }) + "\n";
        s.set("text", text);
        size = size_t(r.range(40000, 300000));
        size -= size % text.size();
        s.set("repeat", i64(size));
        SIM_HIT("probe:large-file");
    }
    if (r.chance(1, 30)) {
        s.set("missing", 1);
    }
    else if (r.chance(1, 40)) {
        s.set("dir", 1);
    }
    if (r.chance(1, 30)) {
        s.set("pathlen", i64(r.logu(10000)));
    }
    sc.recs.push_back(s);
    if (r.chance(1, 10)) {
        gen_faults(r, sc, text, 0, 1);
    }
    if (r.chance(1, 3)) {
        gen_disk_faults(r, sc, name, size, true);
    }
    Rec cli = rec("cli");
    const int args = r.chance(1, 40) ? 0 : r.chance(1, 2) ? 1 : r.chance(1, 20) ? 3 : 2;
    cli.set("args", args);
    const string out = r.chance(1, 20) ? name : string("out.html");
    cli.set("out", out);
    if (r.chance(1, 8)) {
        cli.set("alloc_fail", i64(r.below(4)));
    }
    sc.recs.push_back(cli);
    if (r.chance(1, 2)) {
        // a size near that of the output, or the position of some flush
        const u64 guess = size * r.range(1, 8) + r.below(64);
        const u64 at = r.chance(1, 4) ? r.below(3) : r.chance(1, 3) ? 4096 * r.range(0, 9) + r.below(3) : r.below(guess + 1);
        static const int errnos[] = { ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EINTR };
        Rec d = rec("disk");
        d.set("name", args >= 2 ? out : string("<stdout>"));
        const u64 k = r.below(10);
        if (k < 7) {
            d.set("op", string("write-error"));
            d.set("at", i64(at));
            d.set("errno", errnos[r.below(6)]);
            d.set("once", i64(r.chance(1, 4)));
        }
        else if (k < 9 && args >= 2) {
            d.set("op", string("close-error"));
        }
        else if (args >= 2 && out != name) {
            d.set("op", string("open-fails"));
            d.set("errno", i64(EACCES));
        }
        if (d.has("op")) {
            sc.recs.push_back(d);
        }
    }
}
const Reg c14 { { "C14", gen_c14, exec_c14, "text" } };

// ------------------------------------------------------------------------------------------- C19

void exec_c19(const Scenario& sc, Verdict& v)
{
    World w;
    build_world(w, sc);
    constexpr size_t slots = 5;
    {
        std::array<std::optional<ulight::Unique_File>, slots> h;
        std::array<i64, slots> owns; // index into w.streams, or -1
        owns.fill(-1);
        vector<i64> client; // streams released to the client
        std::set<i64> closed; // according to the model
        size_t number = 0;
        const auto check = [&](const string& what) {
            const auto bad = [&](const string& cls, const string& s) { v.fail(cls, "after " + what + ": " + s); };
            if (w.double_closes || w.foreign_closes) {
                bad("closed-twice", "a file was closed that is not open any more");
                return false;
            }
            for (size_t i = 0; i < w.streams.size(); ++i) {
                const bool want_open = !closed.count(i64(i));
                if (w.streams[i]->open != want_open) {
                    bad(want_open ? "closed-too-early" : "not-closed",
                        "file " + std::to_string(i)
                            + (want_open ? " was closed although it still has an owner"
                                         : " is still open although its last owner gave it up"));
                    return false;
                }
            }
            for (size_t s = 0; s < slots; ++s) {
                if (!h[s]) {
                    continue;
                }
                std::FILE* const want = owns[s] >= 0 ? w.streams[size_t(owns[s])]->f : nullptr;
                if (h[s]->get() != want || bool(*h[s]) != (want != nullptr)) {
                    bad("wrong-owner", "handle " + std::to_string(s)
                        + (want ? " does not own the file it should own" : " owns a file although it gave it up"));
                    return false;
                }
            }
            return true;
        };
        const auto give_up = [&](i64& o) {
            if (o >= 0) {
                closed.insert(o);
            }
            o = -1;
        };
        for (const auto& r : sc.recs) {
            if (r.kind != "op") {
                continue;
            }
            const string& op = r.s("op");
            const size_t a = size_t(r.i("a")) % slots;
            const size_t b = size_t(r.i("b")) % slots;
            const string what = "operation " + std::to_string(number++) + " (" + op + " " + std::to_string(a) + " "
                + std::to_string(b) + ")";
            if (g_log) {
                g_log->ev_str("op", op);
            }
            const size_t before = w.streams.size();
            const auto opened = [&] { return w.streams.size() > before ? i64(w.streams.size() - 1) : i64(-1); };
            const char* const path = r.i("which") == 0 ? "f0" : r.i("which") == 1 ? "f1" : "missing";
            const char* const mode = r.i("write") ? "wb" : "rb";
            if (op == "open") { // construct from the result of opening
                if (h[a]) {
                    give_up(owns[a]);
                    h[a].reset();
                }
                h[a].emplace(ulight::fopen_unique(path, mode));
                owns[a] = opened();
            }
            else if (op == "open-assign") {
                if (!h[a]) {
                    h[a].emplace();
                }
                *h[a] = ulight::fopen_unique(path, mode);
                give_up(owns[a]);
                owns[a] = opened();
            }
            else if (op == "wrap") { // from a raw stream
                if (h[a]) {
                    give_up(owns[a]);
                    h[a].reset();
                }
                std::FILE* const f = std::fopen(path, mode);
                h[a].emplace(f);
                owns[a] = opened();
            }
            else if (op == "rewrap" && !client.empty()) { // hand a released stream back
                if (h[a]) {
                    give_up(owns[a]);
                    h[a].reset();
                }
                h[a].emplace(w.streams[size_t(client.back())]->f);
                owns[a] = client.back();
                client.pop_back();
            }
            else if (op == "default") {
                if (h[a]) {
                    give_up(owns[a]);
                    h[a].reset();
                }
                h[a].emplace();
            }
            else if (op == "move-construct" && a != b && h[b]) {
                if (h[a]) {
                    give_up(owns[a]);
                    h[a].reset();
                }
                h[a].emplace(std::move(*h[b]));
                owns[a] = owns[b];
                owns[b] = -1;
            }
            else if (op == "move-assign" && h[a] && h[b]) {
                auto& from = *h[b];
                *h[a] = std::move(from);
                if (a != b) {
                    give_up(owns[a]);
                    owns[a] = owns[b];
                    owns[b] = -1;
                }
                else if (owns[a] >= 0 && h[a]->get() == nullptr) {
                    give_up(owns[a]); // a handle may lose its file when assigned to itself, but not leak it
                }
            }
            else if (op == "swap" && h[a] && h[b]) {
                swap(*h[a], *h[b]);
                std::swap(owns[a], owns[b]);
            }
            else if (op == "std-swap" && h[a] && h[b] && a != b) {
                std::ranges::swap(*h[a], *h[b]);
                std::swap(owns[a], owns[b]);
            }
            else if (op == "release" && h[a]) {
                std::FILE* const f = h[a]->release();
                if (f != (owns[a] >= 0 ? w.streams[size_t(owns[a])]->f : nullptr)) {
                    v.fail("wrong-owner", "after " + what + ": release() did not return the owned file");
                    return;
                }
                if (owns[a] >= 0) {
                    client.push_back(owns[a]);
                }
                owns[a] = -1;
            }
            else if (op == "close" && h[a]) {
                h[a]->close();
                give_up(owns[a]);
            }
            else if (op == "destroy" && h[a]) {
                h[a].reset();
                give_up(owns[a]);
            }
            else if (op == "client-close" && !client.empty()) {
                std::fclose(w.streams[size_t(client.back())]->f);
                closed.insert(client.back());
                client.pop_back();
            }
            else {
                continue;
            }
            SIM_HIT("probe:handle-operations");
            if (!check(what)) {
                return;
            }
        }
        for (size_t s = 0; s < slots; ++s) {
            h[s].reset();
            give_up(owns[s]);
            if (!check("the destruction of handle " + std::to_string(s))) {
                return;
            }
        }
        for (const i64 x : client) {
            std::fclose(w.streams[size_t(x)]->f);
            closed.insert(x);
        }
        if (!check("everything was given up")) {
            return;
        }
    }
}

void gen_c19(Rng& r, Ctx&, Scenario& sc)
{
    for (int f = 0; f < 2; ++f) {
        Rec s = rec("src");
        s.set("doc", f);
        s.set("name", "f" + std::to_string(f));
        s.set("text", string("content"));
        sc.recs.push_back(s);
    }
    if (r.chance(1, 3)) {
        Rec d = rec("disk");
        d.set("name", r.chance(1, 2) ? "f0" : "f1");
        d.set("op", string(r.chance(3, 4) ? "close-error" : "open-fails"));
        sc.recs.push_back(d);
    }
    static const char* const ops[]
        = { "open", "open", "open", "open-assign", "open-assign", "wrap", "rewrap", "default", "move-construct",
            "move-construct", "move-assign", "move-assign", "move-assign", "swap", "swap", "std-swap", "release",
            "close", "close", "destroy", "client-close" };
    const unsigned n = unsigned(r.logu(40));
    for (unsigned i = 0; i < n; ++i) {
        Rec o = rec("op");
        o.set("op", string(ops[r.below(sizeof ops / sizeof *ops)]));
        o.set("a", i64(r.below(5)));
        o.set("b", i64(r.chance(1, 8) ? o.i("a") : i64(r.below(5))));
        if (r.chance(1, 2)) {
            o.set("which", i64(r.chance(1, 6) ? 2 : r.below(2)));
        }
        if (r.chance(1, 3)) {
            o.set("write", 1);
        }
        sc.recs.push_back(o);
    }
}
const Reg c19 { { "C19", gen_c19, exec_c19, "" } };

} // namespace
} // namespace sim
