// C07: allocation failure. Histories of operations that allocate, with failures at any allocation.
#include "disk.hpp"
#include "gen.hpp"
#include "hl.hpp"
#include "res_pack.hpp"

#include "ulight/impl/io.hpp"
#include "ulight/impl/memory.hpp"
#include "ulight/ulight.hpp"

#include <algorithm>
#include <cstdlib>
#include <memory>
#include <memory_resource>
#include <new>
#include <string>

namespace sim {
namespace {

constexpr size_t slots = 4;

/// Documents that make the highlighters allocate: indentation stacks grow.
string deep_yaml(Rng& r)
{
    string s;
    size_t indent = 0;
    const unsigned n = unsigned(r.logu(60));
    for (unsigned i = 0; i < n; ++i) {
        s.append(indent, ' ');
        switch (r.below(5)) {
        case 0: s += "- "; break;
        case 1: s += "- - "; break;
        case 2: s += "k: v"; break;
        default: s += "key" + std::to_string(i) + ":"; break;
        }
        s += '\n';
        if (r.chance(3, 4)) {
            indent += r.range(1, 3);
        }
        else if (r.chance(1, 3)) {
            indent = r.below(indent + 1);
        }
    }
    return s;
}

void gen_c07(Rng& r, Ctx& c, Scenario& sc)
{
    const unsigned ndocs = unsigned(r.range(1, 2));
    for (unsigned d = 0; d < ndocs; ++d) {
        const bool valid = r.chance(5, 6);
        Rec s = src_rec(r, c, int(d), { .max_len = 1500, .valid_utf8 = valid, .allow_long = r.chance(1, 10) });
        if (r.chance(1, 2)) {
            s.set("lang", 25);
            s.set("text", r.chance(1, 2) ? deep_yaml(r) : gen_text(r, c, 25, { .max_len = 1500, .valid_utf8 = valid }));
        }
        if (r.chance(1, 12)) {
            s.set("repeat", i64(r.logu(40000)));
        }
        s.set("name", "f" + std::to_string(d));
        sc.recs.push_back(s);
        if (r.chance(1, 6)) {
            gen_faults(r, sc, s.s("text"), i64(d), 1);
        }
    }
    static const char* const ops[] = { "new", "delete", "alloc", "free", "request", "request", "request", "load", "load", "resource" };
    const unsigned n = unsigned(r.logu(12)) + 1;
    for (unsigned k = 0; k < n; ++k) {
        Rec o = rec("op");
        const string op = ops[r.below(std::size(ops))];
        o.set("op", op);
        o.set("s", i64(r.below(slots)));
        if (op == "alloc" || op == "resource") {
            o.set("n", i64(r.chance(1, 12) ? 0 : r.logu(1u << 18)));
            o.set("align", i64(1) << r.below(13));
        }
        if (op == "alloc") {
            o.set("cxx", r.chance(1, 2));
            if (r.chance(1, 20)) {
                o.set("huge", 1);
            }
        }
        if (op == "resource") {
            o.set("how", i64(r.below(3)));
            o.set("n", i64(r.logu(400)));
        }
        if (op == "request") {
            o.set("doc", i64(r.below(ndocs)));
            o.set("html", r.chance(1, 3));
            o.set("tokcap", i64(gen_cap(r, 256)));
            o.set("textcap", i64(gen_cap(r, 1024)));
            if (r.chance(1, 4)) {
                o.set("flags", i64(gen_flags(r)));
            }
            o.set("cxx", r.chance(1, 4));
        }
        if (op == "load") {
            static const char* const how[] = { "utf8", "utf8-into", "utf32", "char", "byte", "chunks", "chunks-append" };
            o.set("doc", i64(r.below(ndocs)));
            o.set("how", string(how[r.below(std::size(how))]));
            o.set("prefix", i64(r.chance(1, 2) ? 0 : r.logu(100)));
        }
        if (r.chance(3, 4)) {
            o.set("fail_at", i64(r.logu(r.chance(1, 3) ? 40 : 4) - 1));
            o.set("fail_for", i64(r.chance(1, 2) ? 1 : r.chance(1, 2) ? 1000000 : r.logu(5)));
        }
        sc.recs.push_back(o);
    }
}

/// What a paused or finished window of allocations left behind.
struct Window {
    u64 live0;
    explicit Window(const Rec& o)
        : live0(g_alloc.live)
    {
        g_alloc.mismatched = 0;
        g_alloc.mismatch_text.clear();
        alloc_arm(o.i("fail_at", -1), std::max<i64>(1, o.i("fail_for", 1)));
    }
    ~Window() { alloc_disarm(); }
    u64 failed() const { return g_alloc.failed; }
};

struct Block {
    void* p = nullptr;
    size_t n = 0, align = 0;
    u8 fill = 0;
};

string load_expected(const Scenario& sc, i64 doc)
{
    for (const auto& s : sc.recs) {
        if (s.kind == "src" && s.i("doc") == doc) {
            string content = s.s("text");
            if (s.has("repeat") && !content.empty()) {
                const string unit = content;
                content.clear();
                while (content.size() < size_t(s.i("repeat"))) {
                    content += unit;
                }
            }
            return apply_faults(content, sc.recs, doc);
        }
    }
    return {};
}

struct Loaded {
    int code = -1;
    bool threw = false;
    bool prefix_kept = true;
    string got;
};

template <typename V>
void take(Loaded& l, const V& v, size_t prefix)
{
    const Alloc_Pause pause;
    if (v.size() < prefix) {
        l.prefix_kept = false;
        return;
    }
    for (size_t i = 0; i < prefix; ++i) {
        l.prefix_kept &= u8(v[i]) == u8('p');
    }
    for (size_t i = prefix; i < v.size(); ++i) {
        l.got += char(v[i]);
    }
}

template <typename T>
vector<T> with_prefix(size_t n)
{
    vector<T> v;
    v.resize(n, T('p'));
    return v;
}

Loaded load_once(const string& how, const string& path, size_t prefix, const Rec& o, u64& failed, u64& live)
{
    Loaded l;
    // The caller's container exists before and after the window.
    auto v8 = with_prefix<char8_t>(prefix);
    auto vc = with_prefix<char>(prefix);
    auto vb = with_prefix<std::byte>(prefix);
    {
        const Window w { o };
        try {
            if (how == "utf8") {
                const auto x = ulight::load_utf8_file(path);
                l.code = x ? -1 : int(x.error());
                if (x) {
                    take(l, *x, 0);
                }
            }
            else if (how == "utf8-into") {
                const auto x = ulight::load_utf8_file(v8, path);
                l.code = x ? -1 : int(x.error());
            }
            else if (how == "utf32") {
                const auto x = ulight::load_utf32le_file(path);
                l.code = x ? -1 : int(x.error());
                if (x) {
                    const Alloc_Pause pause;
                    l.got.assign(reinterpret_cast<const char*>(x->data()), x->size() * 4);
                }
            }
            else if (how == "char") {
                const auto x = ulight::file_to_bytes(vc, path);
                l.code = x ? -1 : int(x.error());
            }
            else if (how == "byte") {
                const auto x = ulight::file_to_bytes(vb, path);
                l.code = x ? -1 : int(x.error());
            }
            else {
                const auto x = ulight::file_to_bytes_chunked(
                    [&](std::span<const std::byte> chunk) {
                        if (how == "chunks") {
                            const Alloc_Pause pause;
                            l.got.append(reinterpret_cast<const char*>(chunk.data()), chunk.size());
                        }
                        else {
                            vb.insert(vb.end(), chunk.begin(), chunk.end());
                        }
                    },
                    path
                );
                l.code = x ? -1 : int(x.error());
            }
        } catch (const std::bad_alloc&) {
            l.threw = true;
        }
        failed = w.failed();
        live = g_alloc.live - w.live0;
    }
    // what the caller's own containers hold is not a leak
    const u64 before = g_alloc.live;
    if (how == "utf8-into") {
        take(l, v8, prefix);
    }
    else if (how == "char") {
        take(l, vc, prefix);
    }
    else if (how == "byte" || how == "chunks-append") {
        take(l, vb, prefix);
    }
    vector<char8_t>().swap(v8);
    vector<char>().swap(vc);
    vector<std::byte>().swap(vb);
    live -= before - g_alloc.live;
    return l;
}

void exec_c07(const Scenario& sc, Verdict& v)
{
    g_alloc.live = 0;
    World w;
    for (const auto& r : sc.recs) {
        if (r.kind == "src") {
            w.add(r.s("name"), load_expected(sc, r.i("doc")));
        }
    }
    ulight_state* states[slots] {};
    Block blocks[slots] {};
    size_t number = 0;
    const auto finish = [&] {
        for (auto*& s : states) {
            ulight_delete(s);
            s = nullptr;
        }
        for (auto& b : blocks) {
            if (b.p) {
                ulight_free(b.p, b.n, b.align);
                b.p = nullptr;
            }
        }
    };
    for (const auto& o : sc.recs) {
        if (o.kind != "op" || !v.ok) {
            continue;
        }
        const string& op = o.s("op");
        const size_t s = size_t(o.i("s")) % slots;
        const string what = "operation " + std::to_string(number++) + " (" + op + "): ";
        const auto bad = [&](const char* cls, const string& d) { v.fail(cls, what + d); };
        const auto check_blocks = [&] {
            if (g_alloc.mismatched) {
                bad("mismatched-deallocation", g_alloc.mismatch_text);
            }
        };
        if (op == "new") {
            if (states[s]) {
                ulight_delete(states[s]);
            }
            u64 failed;
            {
                const Window win { o };
                states[s] = ulight_new();
                failed = win.failed();
            }
            if (failed) {
                SIM_HIT("allocation-fails-in-ulight_new");
                if (states[s]) {
                    // it may have got memory on a second attempt
                    ulight_state copy = *states[s];
                    copy.flags = ULIGHT_COALESCE;
                    *states[s] = copy;
                }
                else if (g_alloc.live > 64) {
                    bad("leak", "blocks are still allocated");
                }
            }
            else if (!states[s]) {
                bad("no-state", "null although no allocation failed");
            }
            else if (states[s]->html_tag_name_length != 2 || states[s]->source != nullptr || states[s]->token_buffer != nullptr) {
                bad("no-state", "not initialised");
            }
            check_blocks();
        }
        else if (op == "delete") {
            {
                g_alloc.mismatched = 0;
                ulight_delete(states[s]); // null is fine, as for free()
            }
            states[s] = nullptr;
            check_blocks();
        }
        else if (op == "alloc") {
            Block& b = blocks[s];
            if (b.p) {
                ulight_free(b.p, b.n, b.align);
            }
            b = {};
            size_t n = size_t(o.i("n"));
            if (o.i("huge")) {
                n = size_t(-1) - n;
            }
            const size_t align = size_t(o.i("align", 1));
            u64 failed;
            void* p;
            {
                const Window win { o };
                p = o.i("cxx") ? ulight::alloc(n, align) : ulight_alloc(n, align);
                failed = win.failed();
            }
            if (failed) {
                SIM_HIT("allocation-fails-in-ulight_alloc");
            }
            if (o.i("huge")) {
                SIM_HIT("allocation-impossible-size");
                if (p) {
                    bad("bad-pointer", "memory of impossible size was handed out");
                }
            }
            else if (!failed && !p) {
                bad("bad-pointer", "null although no allocation failed");
            }
            else if (p && reinterpret_cast<std::uintptr_t>(p) % align != 0) {
                bad("bad-pointer", "memory is not aligned to " + std::to_string(align));
            }
            else if (p) {
                b = { p, n, align, u8(number * 37) };
                std::memset(p, b.fill, n);
            }
            check_blocks();
        }
        else if (op == "free") {
            Block& b = blocks[s];
            const u64 live0 = g_alloc.live;
            g_alloc.mismatched = 0;
            if (b.p) {
                for (size_t i = 0; i < b.n; ++i) {
                    if (static_cast<u8*>(b.p)[i] != b.fill) {
                        bad("bad-pointer", "memory was changed by somebody else");
                        break;
                    }
                }
                if (o.i("cxx")) {
                    ulight::free(b.p, b.n, b.align);
                }
                else {
                    ulight_free(b.p, b.n, b.align);
                }
                if (g_alloc.live != live0 - 1) {
                    bad("leak", "ulight_free did not free the memory");
                }
            }
            else {
                ulight_free(nullptr, 1, 1);
            }
            b = {};
            check_blocks();
        }
        else if (op == "request") {
            Req q = req_from(o, sc);
            if (q.src.size() > 20000) {
                q.src.resize(20000);
            }
            const Res ref = run_fresh(q);
            Res got;
            u64 failed, live;
            {
                Client client;
                const Window win { o };
                got = client.request(q);
                failed = win.failed();
                live = g_alloc.live - win.live0;
                alloc_disarm();
                log_res(got);
                if (!got.proto.empty()) {
                    bad("protocol", got.proto);
                }
                if (live != 0) {
                    bad("leak", std::to_string(live) + " blocks are still allocated after the request (lang " + std::to_string(q.lang) + ")");
                }
                check_blocks();
                if (!v.ok) {
                    break;
                }
                if (failed) {
                    SIM_HIT("allocation-fails-in-request");
                    const bool complete = res_diff(ref, got, q.src).empty();
                    if (got.status != ULIGHT_STATUS_BAD_ALLOC && !complete) {
                        bad("failure-not-reported", "an allocation failed (lang " + std::to_string(q.lang) + "), but the status is " + std::to_string(got.status) + (got.assert_text.empty() ? "" : " (assertion: " + got.assert_text + ")"));
                    }
                    else if (!complete) {
                        if (!got.has_error_text) {
                            bad("failure-not-reported", "no error text");
                        }
                        if (got.toks.size() > ref.toks.size() || !std::equal(got.toks.begin(), got.toks.end(), ref.toks.begin()) || !ref.text.starts_with(got.text)) {
                            bad("wrong-partial-output", "what was delivered before the failure is not a prefix of the normal output");
                        }
                    }
                }
                else if (const string d = res_diff(ref, got, q.src); !d.empty()) {
                    bad("wrong-result", "no allocation failed, but: " + d);
                }
                if (!v.ok) {
                    break;
                }
                // Memory is available again.
                const Res again = client.request(q);
                if (const string d = res_diff(ref, again, q.src); !d.empty()) {
                    bad("retry-differs", "the same request again (lang " + std::to_string(q.lang) + "): " + d);
                }
            }
        }
        else if (op == "load") {
            const string& how = o.s("how");
            const string content = load_expected(sc, o.i("doc"));
            const string path = "f" + std::to_string(o.i("doc"));
            const size_t prefix = size_t(o.i("prefix"));
            for (int attempt = 0; attempt < 2 && v.ok; ++attempt) {
                Rec o2 = o;
                if (attempt == 1) {
                    o2.set("fail_at", -1);
                }
                u64 failed = 0, live = 0;
                Clock::arm(50'000'000 + 4000 * content.size());
                const Loaded l = load_once(how, path, prefix, o2, failed, live);
                Clock::disarm();
                if (g_log) {
                    g_log->ev("loaded", u64(l.code), l.got.size(), l.threw);
                }
                if (w.open_count() != 0) {
                    bad("file-left-open", failed ? "after an allocation failure" : "after loading");
                }
                if (live != 0) {
                    bad("leak", "load (" + how + "): " + std::to_string(i64(live)) + " blocks are still allocated");
                }
                check_blocks();
                if (!l.prefix_kept) {
                    bad("container-damaged", "load (" + how + "): the bytes that were in the container before changed");
                }
                int want = -1;
                if (how.starts_with("utf8") && !utf8_valid(content)) {
                    want = int(ulight::IO_Error_Code::corrupted);
                }
                if (how == "utf32" && content.size() % 4 != 0) {
                    want = int(ulight::IO_Error_Code::corrupted);
                }
                if (failed) {
                    SIM_HIT("allocation-fails-in-load");
                }
                if (l.threw) {
                    if (!failed) {
                        bad("wrong-result", "load (" + how + "): bad_alloc although no allocation failed");
                    }
                    else if (!content.starts_with(l.got)) {
                        bad("wrong-partial-output", "load (" + how + "): not a prefix of the file");
                    }
                }
                else if (l.code != want) {
                    bad(failed ? "failure-not-reported" : "wrong-result", "load (" + how + "): result " + std::to_string(l.code) + ", expected " + std::to_string(want));
                }
                else if (want == -1 && l.got != content) {
                    bad(failed ? "failure-not-reported" : "wrong-result", "load (" + how + ") succeeded with wrong data: " + first_diff(l.got, content));
                }
                else if (failed) {
                    // An allocation failed, and yet everything is right: it was not needed.
                    SIM_HIT("probe:failed-allocation-was-not-needed");
                }
            }
        }
        else if (op == "resource") {
            const size_t n = size_t(o.i("n"));
            const size_t align = size_t(o.i("align", 1));
            u64 failed, live;
            bool threw = false;
            bool wrong = false;
            {
                const Window win { o };
                ulight::Global_Memory_Resource mem;
                ulight::Global_Memory_Resource other;
                wrong |= !mem.is_equal(other) || mem.is_equal(*std::pmr::null_memory_resource());
                try {
                    if (o.i("how") == 0) {
                        std::pmr::vector<size_t> x(&mem);
                        for (size_t i = 0; i < n; ++i) {
                            x.push_back(i);
                        }
                        for (size_t i = 0; i < n; ++i) {
                            wrong |= x[i] != i;
                        }
                        const std::pmr::vector<size_t> y(std::move(x), &other);
                        wrong |= y.size() != n;
                    }
                    else if (o.i("how") == 1) {
                        std::pmr::vector<std::pmr::string> x(&mem);
                        for (size_t i = 0; i < n % 40; ++i) {
                            x.emplace_back(i * 3, char('a' + i % 26));
                        }
                    }
                    else {
                        void* const p = mem.allocate(n, align);
                        if (p == nullptr) {
                            wrong = true;
                        }
                        else {
                            wrong |= reinterpret_cast<std::uintptr_t>(p) % align != 0;
                            std::memset(p, 1, n);
                            mem.deallocate(p, n, align);
                        }
                    }
                } catch (const std::bad_alloc&) {
                    threw = true;
                }
                failed = win.failed();
                live = g_alloc.live - win.live0;
            }
            if (failed) {
                SIM_HIT("allocation-fails-in-memory-resource");
            }
            if (live != 0) {
                bad("leak", std::to_string(i64(live)) + " blocks are still allocated");
            }
            check_blocks();
            if (wrong) {
                bad("bad-pointer", "the memory resource handed out unusable memory");
            }
            if (threw != (failed != 0)) {
                bad("failure-not-reported", threw ? "bad_alloc although no allocation failed" : "no exception although an allocation failed");
            }
        }
    }
    finish();
    if (v.ok && g_alloc.live != 0) {
        v.fail("leak", std::to_string(g_alloc.live) + " blocks are still allocated at the end");
    }
    if (v.ok && g_alloc.mismatched) {
        v.fail("mismatched-deallocation", g_alloc.mismatch_text);
    }
    g_alloc.live = 0;
}
const Reg c07 { { "C07", gen_c07, exec_c07, "text" } };

} // namespace
} // namespace sim
