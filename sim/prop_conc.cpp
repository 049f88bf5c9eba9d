// C09: concurrent and re-entrant requests on distinct states.
#include "child.hpp"
#include "gen.hpp"
#include "hl.hpp"
#include "res_pack.hpp"

#include <algorithm>
#include <map>

namespace sim {
namespace {

constexpr int max_depth = 3;
constexpr int max_chain = 150;

void gen_c09(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned ndocs = unsigned(r.range(1, 4));
    const bool same_lang = r.chance(1, 2);
    const size_t max_len = r.chance(1, 12) ? 3000 : r.chance(1, 2) ? 120 : 500;
    const bool html_regions = r.chance(1, 10);
    for (unsigned d = 0; d < ndocs; ++d) {
        const bool valid = r.chance(4, 5);
        Rec s = src_rec(r, c, int(d), { .max_len = max_len, .valid_utf8 = valid, .allow_long = false });
        if (d > 0 && same_lang) {
            const int lang = int(sc.recs[0].i("lang"));
            s.set("lang", lang);
            s.set("text", gen_text(r, c, lang, { .max_len = max_len, .valid_utf8 = valid, .allow_long = false }));
        }
        if (html_regions && r.chance(1, 2)) {
            s.set("lang", 4);
            s.set("text", gen_html_with_regions(r, c, 1500));
        }
        sc.recs.push_back(s);
        if (r.chance(1, 8)) {
            gen_faults(r, sc, s.s("text"), i64(d), 1);
        }
    }
    const unsigned ntasks = r.chance(1, 8) ? 1 : unsigned(r.range(2, 4));
    const bool lookups = r.chance(1, 8);
    int id = 0;
    const auto req = [&](Rec q) {
        q.set("id", id++);
        q.set("doc", i64(r.below(ndocs)));
        if (lookups && r.chance(1, 2)) {
            gen_lookup(r, c, q);
        }
        if (r.chance(1, 3)) {
            q.set("flags", i64(gen_flags(r)));
        }
        q.set("html", r.chance(1, 3));
        q.set("tokcap", i64(gen_cap(r, 256)));
        q.set("textcap", i64(gen_cap(r, 1024)));
        if (r.chance(1, 4)) {
            q.set("cxx", 1);
        }
        if (r.chance(1, 8)) {
            q.set("tag", gen_name(r));
            q.set("attr", gen_name(r));
        }
        if (r.chance(1, 4)) {
            q.set("scribble", i64(r.range(1, 3)));
        }
        if (r.chance(1, 12)) {
            q.set("fail_at", i64(r.logu(20) - 1));
            q.set("exc", i64(r.below(exc_count)));
        }
        sc.recs.push_back(q);
    };
    for (unsigned t = 0; t < ntasks; ++t) {
        const unsigned n = unsigned(r.logu(3));
        for (unsigned k = 0; k < n; ++k) {
            Rec q = rec("req");
            q.set("task", int(t));
            req(q);
        }
    }
    const int top = id;
    if (ntasks == 1 || r.chance(1, 3)) {
        const unsigned n = unsigned(r.logu(4));
        for (unsigned k = 0; k < n; ++k) {
            Rec q = rec("req");
            q.set("in", i64(r.chance(2, 3) ? r.below(u64(top)) : r.below(u64(id))));
            q.set("at", i64(r.logu(12) - 1));
            req(q);
        }
    }
    if (r.chance(1, 40)) { // a long chain of requests, each inside the previous one
        const unsigned n = unsigned(r.range(20, max_chain));
        Rec s = rec("src");
        const int lang = gen_lang(r);
        s.set("doc", i64(ndocs));
        s.set("lang", lang);
        s.set("text", gen_text(r, c, lang, { .max_len = 60, .valid_utf8 = true, .allow_long = false }));
        sc.recs.push_back(s);
        for (unsigned k = 0; k < n; ++k) {
            Rec q = rec("req");
            q.set("in", i64(k == 0 ? i64(r.below(u64(top))) : i64(id) - 1));
            q.set("at", 0);
            req(q);
            sc.recs.back().set("tokcap", i64(r.range(1, 3)));
            sc.recs.back().set("doc", i64(ndocs));
            sc.recs.back().set("chain", 1);
        }
    }
    // The schedule.
    if (ntasks > 1) {
        const u64 style = r.below(4);
        const unsigned n = unsigned(
            style == 0 ? r.logu(6) : style == 1 ? r.logu(400) : style == 2 ? r.logu(200) : r.logu(60)
        );
        const u64 fixed = r.logu(5000);
        for (unsigned k = 0; k < n; ++k) {
            Rec s = rec("switch");
            s.set("to", style == 2 ? i64(k % ntasks) : i64(r.below(ntasks)));
            s.set(
                "steps",
                i64(style == 0 ? r.logu(60000) : style == 1 ? r.logu(64) : style == 2 ? fixed : r.logu(4000))
            );
            sc.recs.push_back(s);
        }
    }
}

struct World {
    const Scenario& sc;
    vector<Rec> reqs;
    std::map<i64, Res> results;

    explicit World(const Scenario& s)
        : sc(s)
    {
        for (const auto& r : s.recs) {
            if (r.kind == "req") {
                reqs.push_back(r);
                reqs.back().set("n", i64(reqs.size() - 1)); // identifies it, whatever the minimiser did
            }
        }
    }

    void run(Client& client, const Rec& r, int depth)
    {
        Req q = req_from(r, sc);
        const i64 id = r.i("id");
        const i64 key = r.i("n");
        bool any = false;
        for (const auto& n : reqs) {
            any |= n.has("in") && n.i("in") == id && n.i("id") != id;
        }
        if (any && depth < (r.i("chain") ? max_chain : max_depth)) {
            q.at_call = [this, id, depth](size_t k) {
                for (const auto& n : reqs) {
                    if (n.has("in") && n.i("in") == id && n.i("id") != id && u64(n.i("at")) == k
                        && !results.contains(n.i("n"))) {
                        SIM_HIT("probe:request-inside-callback");
                        if (depth >= 20) {
                            SIM_HIT("probe:over-20-requests-nested");
                        }
                        results[n.i("n")]; // started
                        Client other;
                        run(other, n, depth + 1);
                    }
                }
            };
        }
        Res res = client.request(q);
        if (g_log) {
            g_log->ev("request", u64(key), u64(depth));
        }
        log_res(res);
        results[key] = std::move(res);
    }
};

u64 limit_of(const Scenario& sc, const vector<Rec>& reqs)
{
    u64 n = 1'000'000;
    for (const auto& r : reqs) {
        n += 2 * default_step_limit(req_from(r, sc));
    }
    return n;
}

void exec_c09(const Scenario& sc, Verdict& v)
{
    World w { sc };
    if (w.reqs.empty()) {
        return;
    }
    // Every request alone.
    const string alone_bytes = in_child(sc.cold, [&](string& out) {
        Packer p { out };
        for (const auto& r : w.reqs) {
            const Req q = req_from(r, sc);
            const Res res = run_fresh(q);
            p.num(u64(r.i("n")));
            pack(p, res);
        }
    });
    // All of them together.
    const string together_bytes = in_child(sc.cold, [&](string& out) {
        std::map<i64, vector<Rec>> by_task;
        for (const auto& r : w.reqs) {
            if (!r.has("in")) {
                by_task[r.i("task")].push_back(r);
            }
        }
        Thread_Sim ts;
        for (const auto& [t, rs] : by_task) {
            ts.tasks.push_back([&w, &rs] {
                Client client;
                for (const auto& r : rs) {
                    w.run(client, r, 0);
                }
            });
        }
        for (const auto& r : sc.recs) {
            if (r.kind == "switch") {
                ts.schedule.push_back({ u32(r.i("to")), u64(std::max<i64>(1, r.i("steps"))) });
            }
        }
        if (ts.tasks.empty()) {
            return;
        }
        Clock::arm(limit_of(sc, w.reqs));
        ts.run();
        Clock::disarm();
        g_stats.hit("schedule:switches-between-tasks", ts.switches > ts.tasks.size() ? ts.switches - ts.tasks.size() : 0);
        g_stats.hit("schedule:preemptions-inside-the-library", ts.inner_switches);
        g_stats.hit("requests:concurrent", w.results.size());
        Packer p { out };
        for (const auto& [id, res] : w.results) {
            p.num(u64(id));
            pack(p, res);
        }
    });
    std::map<i64, Res> alone;
    Unpacker a { alone_bytes };
    while (a.p < a.in.size() && !a.bad) {
        const i64 id = i64(a.num());
        alone[id] = unpack_res(a);
    }
    Unpacker b { together_bytes };
    while (b.p < b.in.size() && !b.bad) {
        const i64 id = i64(b.num());
        const Res res = unpack_res(b);
        if (res.status < 0) {
            continue; // started but cut off by an enclosing failure: cannot happen, requests do not unwind
        }
        const auto it = alone.find(id);
        if (it == alone.end()) {
            continue;
        }
        const Req q = req_from(w.reqs[size_t(id)], sc);
        const string what = "request " + std::to_string(id) + " (lang " + std::to_string(q.lang) + "): ";
        const string d = res_diff(it->second, res, q.src);
        if (!d.empty()) {
            v.fail("influenced-by-other-request", what + "alone vs together: " + d);
        }
        else if (!res.proto.empty() && it->second.proto.empty()) {
            v.fail("influenced-by-other-request", what + res.proto);
        }
        else if (res.src_modified) {
            v.fail("source-modified", what + "the source text was modified");
        }
        else if (res.config_changed && !it->second.config_changed) {
            v.fail("influenced-by-other-request", what + "state fields changed: " + res.config_diff);
        }
        if (!v.ok) {
            return;
        }
    }
}
const Reg c09 { { "C09", gen_c09, exec_c09, "text" } };

} // namespace
} // namespace sim
