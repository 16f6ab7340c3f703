// Explicit-state / stateless model-checking core shared by every check.
//
//  * Chooser    - decides every random draw of the simulator (see shim.hpp)
//  * explore()  - enumerates the tree of choice sequences, completely or up to
//                 a bound on the number of deviations from the default answer
//  * Runner     - splits the enumerated cases over worker processes, notices
//                 crashes and hangs of the code under test, replays every
//                 failure in a fresh process before it is reported
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

// ----------------------------------------------------------------- choices
struct Chooser {
    std::vector<int> prefix;   // forced answers
    std::vector<int> taken;    // answers given so far
    std::vector<int> arity;    // number of alternatives of each answer
    // Default answer policy: 0 = no swap (identity order), 1 = always first
    // (a rotation), 2 = middle, from 3 on: a fixed mixture given by the number
    int policy = 0;
    // One draw whose answer deviates from the policy (-1: none)
    long dev_at = -1;
    int dev_value = 0;
    void reset() { taken.clear(); arity.clear(); }
};
extern Chooser ch;
int default_answer(int n);

struct ExploreStats { long runs = 0; long choices = 0; bool capped = false; };
// Runs `body` once per choice sequence.  maxdev < 0: the complete tree.
// `cap` bounds the number of runs (0 = none); stats.capped tells if it was hit.
ExploreStats explore(
    int maxdev, long cap, const std::function<void()>& body);
// Single run with the default answers (or a given prefix)
void run_default(const std::function<void()>& body, int policy = 0);

// ---------------------------------------------------------------- warnings
extern long n_warning;          // LOG(WARNING) and above emitted so far
extern std::string last_warning;

// Seedings of (or creations of other) generators since main started
long seedings();
// Draws made from the engine directly so far
long raw_draws();

// ------------------------------------------------------------------ runner
struct Fail { std::string key, msg; };

class Runner {
 public:
    Runner(int argc, char** argv);
    // Starts a named section; returns false if it is filtered out
    bool section(const std::string& name);
    // To be called for every case of the section, returns true if this
    // process has to run the case
    bool next();
    // True when this section has to be worked on by this process as a whole
    // (used by searches which are not split by case)
    long index() const { return idx_; }
    void fail(const std::string& key, const std::string& msg);
    void count(const std::string& name, long n = 1);
    void max(const std::string& name, long n);
    // Something which was cut short: the run is not exhaustive
    void capped(const std::string& why) { count("capped." + why); }
    // Records a distinct outcome (only its hash is kept); merged over workers
    void distinct(const std::string& name, std::uint64_t h);
    void sample(const std::string& s);
    bool thorough() const { return thorough_; }
    bool verbose() const { return verbose_; }
    int finish();
    int shard() const { return shard_; }
    int nshard() const { return nshard_; }
    bool only() const { return only_idx_ >= 0; }
    // text of the case being run, for the reports
    std::function<std::string()> describe;
    // environment
    std::string arg(const std::string& name, const std::string& def) const;
    long failures() const { return static_cast<long>(fails_.size()); }

 private:
    int parent();
    void write_result(const std::string& path, bool done);
    std::vector<std::string> argv_;
    bool thorough_ = false, verbose_ = false, worker_ = false, child_ = false;
    int shard_ = 0, nshard_ = 1;
    std::string only_sec_; long only_idx_ = -1;
    std::string out_, sec_; long idx_ = -1; int sec_no_ = -1;
    bool sec_ok_ = true;
    std::map<std::string, long> counters_, maxima_;
    std::map<std::string, std::unordered_set<std::uint64_t>> distinct_;
    std::vector<std::string> samples_;
    std::set<std::string> sampled_;
    struct F { std::string sec; long idx; std::string key, msg, desc, choices; };
    std::vector<F> fails_;
    std::map<std::string, int> nfail_;
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

}  // namespace mc
