// A simulated disk and process environment behind fopen/fclose/exit, stdin-less stdout and stderr.
#pragma once
#include "core.hpp"

#include <cstdio>

namespace sim {

/// What goes wrong on one stream. Offsets are in bytes of that stream.
struct Stream_Plan {
    int open_errno = 0; // the open fails
    u64 short_seed = 0; // reads return fewer bytes than asked for
    u64 short_max = 0;
    i64 read_error_at = -1; // reading the byte at this offset fails ...
    int read_errno = 5;
    bool read_error_once = false; // ... only the first time
    i64 write_error_at = -1; // writing beyond this offset fails (full disk, quota, I/O error)
    int write_errno = 28;
    bool write_error_once = false;
    bool close_error = false;
};

struct Disk_File {
    string content;
    bool is_directory = false;
};

struct Open_Stream {
    std::FILE* f = nullptr;
    string path;
    string mode;
    Stream_Plan plan;
    size_t pos = 0;
    string delivered; // bytes handed to the reader
    bool eof = false; // the reader was told that the file ends
    bool open = true;
    u64 read_errors = 0, write_errors = 0, close_errors = 0, short_reads = 0;
    Rng rng { 1 };
    int owner = -1; // what was going on in this thread when it was opened, see t_stream_owner
};
/// Identifies the operation that opens streams in this (simulated) thread.
extern thread_local int t_stream_owner;

/// The world of one run. Exactly one exists while a scenario of C13, C14 or C19 runs.
struct World {
    std::map<string, Disk_File> files; // by path as passed to fopen, without "./"
    std::map<string, Stream_Plan> plans; // by path; "<stdout>" for standard output
    vector<Open_Stream*> streams; // all ever opened, in order
    u64 double_closes = 0;
    u64 foreign_closes = 0;
    string stdout_accepted;
    u64 stdout_errors = 0;

    World();
    ~World();
    World(const World&) = delete;
    void add(const string& path, string content);
    u64 open_count() const;
    Open_Stream* find(std::FILE* f);
    Open_Stream* last(const string& path);
};
extern World* g_world;

string normal_path(string_view p);

struct Exit_Called {
    int code;
};

/// Runs the command-line tool in this process with a simulated environment.
struct Cli_Result {
    int code = -1;
    bool exited = false; // through exit()
    string err; // standard error
};
Cli_Result run_cli(const vector<string>& args);

/// The allocation in ulight_source_to_html that fails (-1: none); see the wrapper.
extern i64 g_html_alloc_fail;
extern u64 g_html_alloc_failed;
extern u64 g_html_calls;

} // namespace sim
