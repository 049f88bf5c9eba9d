// Runs part of a simulation in a forked process, so that it starts from the library's cold state.
#pragma once
#include "core.hpp"

namespace sim {

/// Runs fn in a child process whose library code has never run before (as long as the parent only uses
/// the library inside children). Statistics, history and steps are carried over to the parent.
/// A child that dies takes the parent with it, with the same exit status.
/// Unless cold: then it runs right here.
string in_child(bool cold, const std::function<void(string& out)>& fn);

/// Runs fn in a forked process, in a thread with a stack of the usual size, 8 MB.
string on_ordinary_stack(const std::function<void(string& out)>& fn, size_t bytes = size_t(8) << 20);

// Serialisation of what a child reports.
struct Packer {
    string& out;
    void num(u64 v) { out.append(reinterpret_cast<const char*>(&v), 8); }
    void str(string_view s)
    {
        num(s.size());
        out.append(s);
    }
};
struct Unpacker {
    string_view in;
    size_t p = 0;
    bool bad = false;
    u64 num()
    {
        u64 v = 0;
        if (p + 8 > in.size()) {
            bad = true;
            return 0;
        }
        std::memcpy(&v, in.data() + p, 8);
        p += 8;
        return v;
    }
    string str()
    {
        const u64 n = num();
        if (bad || n > in.size() - p) {
            bad = true;
            return {};
        }
        p += n;
        return string(in.substr(p - n, n));
    }
};

} // namespace sim
