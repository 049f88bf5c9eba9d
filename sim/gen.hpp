// Workload generation: source texts and faults, steered by coverage of the running code.
#pragma once
#include "core.hpp"

namespace sim {

constexpr int lang_count = 26; // ids 1..25

struct Ctx {
    vector<vector<string>> docs { size_t(lang_count) }; // seed corpus
    vector<vector<string>> snips { size_t(lang_count) }; // single constructs, many of them open
    vector<vector<string>> flats { size_t(lang_count) }; // "before\0unit\0after": units that do not nest when repeated
    vector<vector<string>> pool { size_t(lang_count) }; // found while running (coverage)
    vector<vector<string>> dict { size_t(lang_count) }; // words of each language
    vector<string> common; // words of all languages
    vector<u64> lengths; // interesting lengths
    u8 virgin[cov_size] = {};
    u64 pool_adds = 0;

    bool load(const string& corpus_dir, const string& dict_file);
    /// Records the coverage of the last run; returns true if it was new.
    bool feedback();
};

struct Text_Opts {
    size_t max_len = 4096;
    bool valid_utf8 = true;
    bool allow_long = true; // sometimes generate much longer texts
};

int gen_lang(Rng&);
string gen_text(Rng&, Ctx&, int lang, const Text_Opts& = {});
string mutate(Rng&, Ctx&, int lang, string text, const Text_Opts&);
/// The text after an edit that keeps its length: words replaced by other words.
string edit_in_place(Rng&, const Ctx&, int lang, string text);
string to_valid_utf8(string_view);
string gen_html_with_regions(Rng&, Ctx&, size_t max_len);
size_t gen_cap(Rng&, size_t max = 4096);
unsigned gen_flags(Rng&);
string gen_name(Rng&); // html tag or attribute name, or empty for the default
/// What to look up: kind, name and value.
void gen_lookup(Rng&, Ctx&, Rec&);
string random_string(Rng&, Ctx&, size_t max_len, bool valid);
/// Adds up to n in-transit faults.
void gen_faults(Rng&, Scenario&, const string& text, i64 target, unsigned n);
Rec src_rec(Rng&, Ctx&, int doc, const Text_Opts& = {});

} // namespace sim
