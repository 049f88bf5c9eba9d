// C16: the streaming buffer between the producers and the consumer's callback.
#include "gen.hpp"
#include "hl.hpp"

#include "ulight/impl/buffer.hpp"
#include "ulight/ulight.hpp"

#include <cstdlib>
#include <deque>
#include <list>
#include <memory>
#include <ranges>
#include <span>
#include <sstream>
#include <stdexcept>
#include <type_traits>
#include <utility>

namespace sim {
namespace {

// ------------------------------------------------------------------------------------- elements

template <typename T>
struct Elem { // integers
    static T make(u64 id) { return T(id); }
    static u64 canon(u64 id) { return u64(T(id)); }
    static u64 read(const T& t) { return u64(t); }
};
template <>
struct Elem<ulight::Token> {
    static ulight::Token make(u64 id)
    {
        ulight::Token t {};
        t.begin = size_t(id);
        t.length = size_t(id * 7 + 1);
        t.type = u8(id);
        return t;
    }
    static u64 canon(u64 id) { return id; }
    static u64 read(const ulight::Token& t)
    {
        return t.length == size_t(u64(t.begin) * 7 + 1) && t.type == u8(t.begin) ? u64(t.begin) : ~u64(0);
    }
};
template <>
struct Elem<string> {
    static string make(u64 id) { return "element-with-a-long-name-" + std::to_string(id); }
    static u64 canon(u64 id) { return id; }
    static u64 read(const string& s)
    {
        return s.size() > 25 ? std::strtoull(s.c_str() + 25, nullptr, 10) : ~u64(0);
    }
};
template <>
struct Elem<std::unique_ptr<u64>> {
    static std::unique_ptr<u64> make(u64 id) { return std::make_unique<u64>(id); }
    static u64 canon(u64 id) { return id; }
    static u64 read(const std::unique_ptr<u64>& p) { return p ? *p : ~u64(0); }
};

/// Elements whose assignment or conversion fails: the fuse counts down to the failure.
i64 g_fuse = -1; // < 0: never
struct Fuse_Blown { };
void burn()
{
    if (g_fuse >= 0 && g_fuse-- == 0) {
        SIM_HIT("fault:an-element's-copy-throws");
        throw Fuse_Blown {};
    }
}
struct Frail {
    u64 id = 0;
    Frail() = default;
    explicit Frail(u64 i)
        : id(i)
    {
    }
    Frail(const Frail&) = default;
    Frail(Frail&&) = default;
    Frail& operator=(const Frail& o)
    {
        burn();
        id = o.id;
        return *this;
    }
    Frail& operator=(Frail&& o)
    {
        burn();
        id = o.id;
        return *this;
    }
};
struct Frail_Source {
    u64 id = 0;
    operator Frail() const
    {
        burn();
        return Frail { id };
    }
};
template <>
struct Elem<Frail> {
    static Frail make(u64 id) { return Frail { id }; }
    static u64 canon(u64 id) { return id; }
    static u64 read(const Frail& f) { return f.id; }
};
template <>
struct Elem<Frail_Source> {
    static Frail_Source make(u64 id) { return { id }; }
    static u64 canon(u64 id) { return id; }
    static u64 read(const Frail_Source& f) { return f.id; }
};

// ----------------------------------------------------------------------------------------- sinks

struct Call {
    vector<u64> values;
    bool right_pointer;
};
struct Sink_State {
    const void* buffer = nullptr;
    vector<Call> calls;
    i64 fail_from = -1, fail_n = 0;
    int exc = 0;
    bool scribble = false;
};

template <typename T>
void sink_body(Sink_State& s, T* p, size_t n)
{
    const u64 k = s.calls.size();
    Call c;
    c.right_pointer = p == s.buffer;
    if (c.right_pointer) {
        for (size_t i = 0; i < n; ++i) {
            c.values.push_back(Elem<T>::read(p[i]));
        }
    }
    else {
        c.values.resize(n);
    }
    s.calls.push_back(std::move(c));
    if (g_log) {
        g_log->ev("sink", k, n);
    }
    if (s.fail_from >= 0 && i64(k) >= s.fail_from && i64(k) < s.fail_from + s.fail_n) {
        throw_as(s.exc, "sink");
    }
    if (s.scribble && p == s.buffer) {
        const i64 fuse = std::exchange(g_fuse, -1);
        for (size_t i = 0; i < n; ++i) {
            p[i] = Elem<T>::make(0x7e);
        }
        g_fuse = fuse;
    }
}

template <typename T>
void sink_fn(const void* data, T* p, size_t n)
{
    sink_body<T>(*const_cast<Sink_State*>(static_cast<const Sink_State*>(data)), p, n);
}

/// A single-pass source: every element may be read once.
template <typename T>
struct One_Pass {
    struct State {
        vector<T> v;
        size_t at = 0;
        bool misuse = false;
    };
    struct Iter {
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        State* st = nullptr;
        T& operator*() const
        {
            if (st->at >= st->v.size()) {
                fatal("reads-past-the-range", "an exhausted single-pass range was read");
            }
            return st->v[st->at];
        }
        Iter& operator++()
        {
            if (st->at >= st->v.size()) {
                fatal("reads-past-the-range", "an exhausted single-pass range was advanced");
            }
            ++st->at;
            return *this;
        }
        void operator++(int) { ++*this; }
    };
    struct Sentinel {
        friend bool operator==(const Iter& i, const Sentinel&) { return i.st->at == i.st->v.size(); }
    };
    State st;
    Iter begin() { return { &st }; }
    Sentinel end() { return {}; }
};

// ------------------------------------------------------------------------------------------ model

struct Model {
    size_t cap;
    vector<u64> pending;
    vector<vector<u64>> calls;
    i64 fail_from, fail_n;

    bool failing() const
    {
        const i64 k = i64(calls.size()) - 1;
        return fail_from >= 0 && k >= fail_from && k < fail_from + fail_n;
    }
    bool flush() // false: the sink threw
    {
        if (pending.empty()) {
            return true;
        }
        calls.push_back(pending);
        if (failing()) {
            return false;
        }
        pending.clear();
        return true;
    }
    bool push(u64 v)
    {
        if (pending.size() == cap && !flush()) {
            return false;
        }
        pending.push_back(v);
        return true;
    }
};

string show(const vector<u64>& v)
{
    string s = std::to_string(v.size()) + " elements [";
    for (size_t i = 0; i < v.size() && i < 6; ++i) {
        s += (i ? " " : "") + std::to_string(v[i]);
    }
    return s + (v.size() > 6 ? " ...]" : "]");
}

template <typename T, typename Src>
struct Runner {
    Verdict& v;
    const Scenario& sc;
    const Rec& conf;
    size_t cap;
    T* mem;
    Sink_State sink;
    Model model;

    Runner(Verdict& verdict, const Scenario& scenario, const Rec& c)
        : v(verdict)
        , sc(scenario)
        , conf(c)
        , cap(size_t(std::max<i64>(1, c.i("cap", 1))))
        , mem(static_cast<T*>(std::malloc(cap * sizeof(T))))
        , model { cap, {}, {}, -1, 0 }
    {
        for (size_t i = 0; i < cap; ++i) {
            new (mem + i) T();
        }
        sink.buffer = mem;
        for (const auto& r : sc.recs) {
            if (r.kind == "fail") {
                model.fail_from = sink.fail_from = r.i("at");
                model.fail_n = sink.fail_n = r.i("n", 1);
                sink.exc = int(unsigned(r.i("exc")) % exc_count);
            }
        }
        sink.scribble = c.i("scribble") != 0;
    }
    ~Runner()
    {
        for (size_t i = 0; i < cap; ++i) {
            mem[i].~T();
        }
        std::free(mem);
    }

    static constexpr bool copyable = std::is_copy_assignable_v<T>;

    void run()
    {
        auto lambda = [this](T* p, size_t n) { sink_body<T>(sink, p, n); };
        if (conf.i("sink") == 1) {
            ulight::Non_Owning_Buffer<T> b { std::span<T> { mem, cap }, lambda };
            ops(b);
        }
        else if (conf.i("sink") == 2) {
            using F = ulight::Function_Ref<void(T*, size_t)>;
            ulight::Non_Owning_Buffer<T> b { std::span<T> { mem, cap },
                                             F { ulight::Constant<&member> {}, this } };
            ops(b);
        }
        else {
            ulight::Non_Owning_Buffer<T> b { mem, cap, &sink, &sink_fn<T> };
            ops(b);
        }
    }
    static void member(Runner* self, T* p, size_t n) { sink_body<T>(self->sink, p, n); }

    bool observe(const ulight::Non_Owning_Buffer<T>& b, const string& after)
    {
        const size_t n = model.pending.size();
        const auto bad = [&](const string& what) {
            v.fail("buffer-observers", "after " + after + ": " + what + ", capacity " + std::to_string(cap)
                + ", expected size " + std::to_string(n));
        };
        if (b.capacity() != cap) {
            bad("capacity() is " + std::to_string(b.capacity()));
        }
        else if (b.size() != n) {
            bad("size() is " + std::to_string(b.size()));
        }
        else if (b.available() != cap - n) {
            bad("available() is " + std::to_string(b.available()));
        }
        else if (b.full() != (n == cap)) {
            bad("full() is wrong");
        }
        else if (b.empty() != (n == 0)) {
            bad("empty() is wrong");
        }
        else if (n != 0 && Elem<T>::read(b.back()) != model.pending.back()) {
            bad("back() is not the element appended last");
        }
        return v.ok;
    }

    /// Compares the sink's history with the model's.
    bool history(const string& after)
    {
        for (size_t i = 0; i < sink.calls.size(); ++i) {
            if (!sink.calls[i].right_pointer) {
                v.fail("sink-arguments", "after " + after + ": sink call " + std::to_string(i)
                    + " was not handed the buffer");
                return false;
            }
            if (i >= model.calls.size()) {
                v.fail("sink-called-needlessly", "after " + after + ": sink call " + std::to_string(i) + " with "
                    + show(sink.calls[i].values) + " was not expected");
                return false;
            }
            if (sink.calls[i].values != model.calls[i]) {
                v.fail("sink-got-wrong-elements", "after " + after + ": sink call " + std::to_string(i) + " got "
                    + show(sink.calls[i].values) + ", expected " + show(model.calls[i]));
                return false;
            }
        }
        if (sink.calls.size() != model.calls.size()) {
            v.fail("sink-not-called", "after " + after + ": sink was called " + std::to_string(sink.calls.size())
                + " times, expected " + std::to_string(model.calls.size()));
            return false;
        }
        return true;
    }

    template <typename S>
    static S src_elem(u64 id)
    {
        return Elem<S>::make(id);
    }

    void ops(ulight::Non_Owning_Buffer<T>& b)
    {
        if (!observe(b, "construction")) {
            return;
        }
        u64 id = u64(conf.i("first", 1));
        size_t number = 0;
        for (const auto& r : sc.recs) {
            if (r.kind != "op") {
                continue;
            }
            const string& op = r.s("op");
            const string name = "operation " + std::to_string(number++) + " (" + op + " " + std::to_string(r.i("n"))
                + ")";
            bool threw = false, model_threw = false;
            int kind = -1;
            const size_t n = size_t(r.i("n"));
            if (g_log) {
                g_log->ev_str("op", op);
            }
            const auto m_push = [&](u64 val) {
                if (!model_threw && !model.push(val)) {
                    model_threw = true;
                }
            };
            const u64 id0 = id;
            const Model before = model;
            bool blown = false;
            g_fuse = r.i("fuse", -1);
            if (op == "set-back") {
                g_fuse = -1;
            }
            try {
                if (op == "push") {
                    m_push(Elem<T>::canon(id++));
                    if constexpr (copyable) {
                        const T e = Elem<T>::make(id0);
                        T& ref = b.push_back(e);
                        returned(b, ref, name);
                    }
                    else {
                        T& ref = b.push_back(Elem<T>::make(id0));
                        returned(b, ref, name);
                    }
                }
                else if (op == "push-move") {
                    m_push(Elem<T>::canon(id++));
                    T e = Elem<T>::make(id0);
                    T& ref = b.push_back(std::move(e));
                    returned(b, ref, name);
                }
                else if (op == "emplace") {
                    m_push(Elem<T>::canon(id++));
                    T& ref = b.emplace_back(Elem<T>::make(id0));
                    returned(b, ref, name);
                }
                else if (op == "flush") {
                    model_threw = !model.flush();
                    b.flush();
                }
                else if (op == "clear") {
                    model.pending.clear();
                    b.clear();
                }
                else if (op == "set-back") { // as the highlighters do when they coalesce
                    if (!model.pending.empty()) {
                        model.pending.back() = Elem<T>::canon(id++);
                        b.back() = Elem<T>::make(id0);
                    }
                }
                else if (op.starts_with("append")) {
                    vector<Src> src;
                    for (size_t i = 0; i < n; ++i) {
                        src.push_back(src_elem<Src>(id));
                        m_push(Elem<T>::canon(u64(Elem<Src>::canon(id))));
                        ++id;
                    }
                    append(b, op, std::move(src));
                }
            } catch (const Fuse_Blown&) {
                blown = true;
            } catch (...) {
                threw = true;
                kind = thrown_kind();
            }
            g_fuse = -1;
            if (blown && v.ok && !part_of(before, b, op.starts_with("append") ? n : 1, id0, name)) {
                return;
            }
            if (blown) {
                threw = model_threw = false;
            }
            if (!v.ok || !history(name)) {
                return;
            }
            if (threw != model_threw || (threw && kind != sink.exc)) {
                v.fail("sink-failure-mishandled", "after " + name
                    + (threw ? ": unexpected or different exception" : ": the sink's exception was swallowed"));
                return;
            }
            if (!observe(b, name)) {
                return;
            }
        }
        // What is left comes out once the sink works again.
        sink.fail_from = model.fail_from = -1;
        model.flush();
        b.flush();
        if (history("the final flush")) {
            observe(b, "the final flush");
        }
        SIM_HIT("probe:histories-completed");
    }

    /// Copying an element failed: what was appended is the elements before some element of
    /// the range, none of which is lost or delivered twice.
    bool part_of(
        const Model& before,
        const ulight::Non_Owning_Buffer<T>& b,
        size_t n,
        u64 id0,
        const string& name
    )
    {
        model = before;
        for (size_t m = 0; m < n; ++m) {
            for (int flushed = 0; flushed < 2; ++flushed) {
                Model tried = model;
                if (flushed && (tried.pending.size() != cap || !tried.flush())) {
                    break;
                }
                if (tried.calls.size() == sink.calls.size() && tried.pending.size() == b.size()) {
                    model = tried;
                    return true;
                }
            }
            if (!model.push(Elem<T>::canon(u64(Elem<Src>::canon(id0 + m))))) {
                break;
            }
        }
        v.fail("failed-append-left-wrong-contents", "after " + name + ", in which copying an element failed: size() is "
            + std::to_string(b.size()) + " after " + std::to_string(sink.calls.size())
            + " calls of the sink, which no number of appended elements explains (before: "
            + show(before.pending) + " and " + std::to_string(before.calls.size()) + " calls, capacity "
            + std::to_string(cap) + ")");
        return false;
    }

    void returned(ulight::Non_Owning_Buffer<T>& b, T& ref, const string& name)
    {
        if (b.empty() || &ref != &b.back()) {
            v.fail("buffer-observers", name + " did not return the appended element");
        }
    }

    void append(ulight::Non_Owning_Buffer<T>& b, const string& op, vector<Src> src)
    {
        if constexpr (std::convertible_to<Src&, T>) {
            if (op == "append-ptr") {
                // an exact block, so that reading past it is seen
                Src* const p = static_cast<Src*>(std::malloc(std::max<size_t>(1, src.size() * sizeof(Src))));
                for (size_t i = 0; i < src.size(); ++i) {
                    new (p + i) Src(src[i]);
                }
                struct Free {
                    Src* p;
                    size_t n;
                    ~Free()
                    {
                        for (size_t i = 0; i < n; ++i) {
                            p[i].~Src();
                        }
                        std::free(p);
                    }
                } f { p, src.size() };
                const Src* const cp = p;
                b.append(cp, cp + src.size());
            }
            else if (op == "append-vector") {
                b.append(src.begin(), src.end());
            }
            else if (op == "append-deque") {
                std::deque<Src> d(src.begin(), src.end());
                b.append(d.begin(), d.end());
            }
            else if (op == "append-list") {
                std::list<Src> d(src.begin(), src.end());
                b.append(d.begin(), d.end());
            }
            else if (op == "append-once") {
                One_Pass<Src> d;
                d.st.v = std::move(src);
                b.append(d.begin(), d.end());
            }
            else if (op == "append-counted") {
                b.append(std::counted_iterator(src.begin(), std::ptrdiff_t(src.size())), std::default_sentinel);
            }
            else if (op == "append-reverse") {
                vector<Src> rev(src.rbegin(), src.rend());
                b.append(rev.rbegin(), rev.rend());
            }
            else if (op == "append_range-vector") {
                b.append_range(src);
            }
            else if (op == "append_range-span") {
                const std::span<const Src> s { src };
                b.append_range(s);
            }
            else if (op == "append_range-list") {
                std::list<Src> d(src.begin(), src.end());
                b.append_range(d);
            }
            else if (op == "append_range-view") {
                auto view = src | std::views::transform([](const Src& s) { return s; });
                b.append_range(view);
            }
            else if (op == "append_range-once") {
                One_Pass<Src> d;
                d.st.v = std::move(src);
                b.append_range(d);
            }
            else {
                b.append_range(std::span<Src> { src });
            }
        }
        else {
            for (auto& s : src) {
                b.push_back(Elem<T>::make(Elem<Src>::read(s)));
            }
        }
    }
};

constexpr int type_count = 12;

void exec_c16(const Scenario& sc, Verdict& v)
{
    for (const auto& r : sc.recs) {
        if (r.kind != "buf") {
            continue;
        }
        const auto go = [&]<typename T, typename S>() { Runner<T, S> { v, sc, r }.run(); };
        switch (r.i("type") % type_count) {
        case 0: go.operator()<char, char>(); break;
        case 1: go.operator()<char8_t, char>(); break;
        case 2: go.operator()<int, int>(); break;
        case 3: go.operator()<ulight::Token, ulight::Token>(); break;
        case 4: go.operator()<string, string>(); break;
        case 5: {
            // move-only elements
            Runner<std::unique_ptr<u64>, u64> { v, sc, r }.run();
            break;
        }
        case 6: go.operator()<u64, unsigned>(); break; // widening
        case 7: go.operator()<unsigned char, unsigned>(); break; // narrowing
        case 8: go.operator()<u64, char8_t>(); break;
        case 9: go.operator()<char, char8_t>(); break;
        case 10: go.operator()<Frail, Frail>(); break;
        case 11: go.operator()<Frail, Frail_Source>(); break;
        }
        return;
    }
}

void gen_c16(Rng& r, Ctx&, Scenario& sc)
{
    static const char* const ops[]
        = { "push",          "push",         "push-move",           "emplace",           "flush",
            "clear",         "set-back",     "append-ptr",          "append-vector",     "append-deque",
            "append-list",   "append-once",  "append-counted",      "append-reverse",    "append_range-vector",
            "append_range-span", "append_range-list", "append_range-view", "append_range-once", "append_range-other" };
    Rec b = rec("buf");
    size_t cap = size_t(r.chance(1, 2) ? r.range(1, 5) : r.logu(200));
    b.set("cap", i64(cap));
    const bool frail = r.chance(1, 4);
    b.set("type", i64(frail ? r.range(10, 11) : r.below(10)));
    b.set("sink", i64(r.below(3)));
    b.set("first", i64(r.logu(1000)));
    if (r.chance(1, 4)) {
        b.set("scribble", 1);
    }
    sc.recs.push_back(b);
    if (r.chance(1, 2)) {
        Rec f = rec("fail");
        f.set("at", i64(r.logu(12) - 1));
        f.set("n", i64(r.logu(4)));
        f.set("exc", i64(r.below(exc_count)));
        sc.recs.push_back(f);
    }
    const unsigned n = unsigned(r.logu(40));
    for (unsigned i = 0; i < n; ++i) {
        Rec o = rec("op");
        o.set("op", string(ops[r.below(sizeof ops / sizeof *ops)]));
        if (o.s("op").starts_with("append")) {
            // around multiples of the capacity
            i64 k = i64(r.chance(1, 2) ? r.below(4) * cap + r.below(3) : r.logu(3 * cap + 2));
            if (k > 0 && r.chance(1, 3)) {
                --k;
            }
            o.set("n", k);
        }
        if (frail && r.chance(1, 4)) {
            o.set("fuse", i64(r.chance(1, 2) ? r.below(4) : r.logu(3 * cap + 2) - 1));
        }
        sc.recs.push_back(o);
    }
}

const Reg c16 { { "C16", gen_c16, exec_c16, "" } };

} // namespace
} // namespace sim
