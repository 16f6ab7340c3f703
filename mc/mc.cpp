#include "mc.hpp"
#include <glog/logging.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <thread>

namespace mc {

Chooser ch;
long n_warning = 0;
std::string last_warning;

struct Slot {   // shared with the parent: what the worker is doing now
    volatile std::uint64_t beat;
    volatile long idx;
    char sec[64];
    volatile int done;
};
static Slot* slot = nullptr;
static Slot dummy_slot;

int default_answer(int n) {
    if (static_cast<long>(ch.taken.size()) == ch.dev_at)
        return ch.dev_value % n;
    switch (ch.policy) {
        case 1: return 0;
        case 2: return n / 2;
        case 0: return n - 1;
        default: return static_cast<int>(mix(
            mix(ch.policy, ch.taken.size() + 17), n) % n);
    }
}

static long n_diverged = 0;

int choose(int n) {
    if (n <= 0) { std::fprintf(stderr, "choose(%d)\n", n); std::abort(); }
    if (slot) slot->beat = slot->beat + 1;
    size_t k = ch.taken.size();
    if (k > 3000000) {
        std::fprintf(stderr, "MC: endless sequence of random draws\n");
        _exit(78);
    }
    int v;
    if (k < ch.prefix.size()) {
        v = ch.prefix[k];
        if (v >= n) {
            // The same prefix led to another choice point: a source of
            // nondeterminism is not under control.  The run goes on, but it
            // decides nothing unless it fails
            if (!n_diverged++)
                std::fprintf(stderr, "MC-INTERNAL replay divergence\n");
            v = default_answer(n);
        }
    } else {
        v = default_answer(n);
    }
    ch.taken.push_back(v);
    ch.arity.push_back(n);
    return v;
}

static long n_seed = 0;
void on_seed() { n_seed++; }
long seedings() { return n_seed; }

static long n_raw = 0;
long raw_draws() { return n_raw; }
std::uint32_t raw_draw() {
    n_raw++;
    // Direct use of the engine: sixteen evenly spread answers
    return static_cast<std::uint32_t>(choose(16)) * 0x11111111u;
}

ExploreStats explore(
    int maxdev, long cap, const std::function<void()>& body
) {
    ExploreStats st;
    const long before = n_diverged;
    struct Node { std::vector<int> prefix; int dev; };
    std::vector<Node> stack;
    stack.push_back({{}, 0});
    while (!stack.empty()) {
        if (cap > 0 && st.runs >= cap) { st.capped = true; break; }
        Node nd = std::move(stack.back());
        stack.pop_back();
        ch.prefix = nd.prefix;
        ch.reset();
        body();
        st.runs++;
        st.choices += ch.taken.size();
        if (ch.taken.size() < ch.prefix.size()) {
            if (!n_diverged++)
                std::fprintf(stderr, "MC-INTERNAL replay too short\n");
        }
        if (n_diverged > before) { st.capped = true; break; }
        if (maxdev >= 0 && nd.dev >= maxdev) continue;
        auto taken = ch.taken;
        auto arity = ch.arity;
        for (size_t i = taken.size(); i-- > nd.prefix.size();) {
            for (int alt = 0; alt < arity[i]; alt++) {
                if (alt == taken[i]) continue;
                std::vector<int> p(taken.begin(), taken.begin() + i);
                p.push_back(alt);
                stack.push_back({std::move(p), nd.dev + 1});
            }
        }
    }
    ch.prefix.clear();
    return st;
}

void run_default(const std::function<void()>& body, int policy) {
    int old = ch.policy;
    ch.policy = policy;
    ch.prefix.clear();
    ch.reset();
    body();
    ch.policy = old;
}

// ---------------------------------------------------------------- warnings
class Sink : public google::LogSink {
 public:
    void send(google::LogSeverity sev, const char*, const char*, int,
              const struct ::tm*, const char* msg, size_t len) override {
        if (sev >= google::GLOG_WARNING) {
            n_warning++;
            last_warning.assign(msg, len);
        }
    }
};
static Sink sink;

static void init_logging() {
    FLAGS_logtostderr = false;
    FLAGS_alsologtostderr = false;
    FLAGS_stderrthreshold = google::GLOG_FATAL;
    FLAGS_minloglevel = 0;
    for (int s = 0; s < 4; s++) google::SetLogDestination(s, "");
    google::InitGoogleLogging("mc");
    google::AddLogSink(&sink);
}

// ------------------------------------------------------------------ runner
Runner::Runner(int argc, char** argv) {
    n_seed = 0;
    for (int i = 0; i < argc; i++) argv_.push_back(argv[i]);
    thorough_ = arg("--tier", "quick") == "thorough";
    verbose_ = arg("--verbose", "") == "1";
    out_ = arg("--out", "");
    nshard_ = std::stoi(arg("--jobs", "8"));
    std::string o = arg("--only", "");
    if (!o.empty()) {
        auto p = o.rfind(':');
        only_sec_ = o.substr(0, p);
        only_idx_ = std::stol(o.substr(p + 1));
    }
    std::string sh = arg("--shard", "");
    slot = &dummy_slot;
    if (!sh.empty()) {
        child_ = true;
        shard_ = std::stoi(sh);
        std::string shm = arg("--slot", "");
        if (!shm.empty()) {
            int fd = ::open(shm.c_str(), O_RDWR);
            void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                           MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) slot = static_cast<Slot*>(p);
            ::close(fd);
        }
        init_logging();
        return;
    }
    std::exit(parent());
}

std::string Runner::arg(
    const std::string& name, const std::string& def
) const {
    for (size_t i = 1; i + 1 < argv_.size(); i++)
        if (argv_[i] == name) return argv_[i + 1];
    return def;
}

bool Runner::section(const std::string& name) {
    sec_ = name;
    idx_ = -1;
    std::strncpy(slot->sec, name.c_str(), sizeof(slot->sec) - 1);
    slot->idx = -1;
    describe = nullptr;
    std::string f = arg("--section", "");
    sec_ok_ = (only_idx_ < 0 || only_sec_ == name) && (f.empty() || f == name);
    return sec_ok_;
}

bool Runner::next() {
    idx_++;
    if (!sec_ok_) return false;
    if (only_idx_ >= 0) {
        if (idx_ != only_idx_) return false;
    } else if (idx_ % nshard_ != shard_) {
        return false;
    }
    slot->idx = idx_;
    slot->beat = slot->beat + 1;
    counters_["cases"]++;
    counters_["cases." + sec_]++;
    return true;
}

void Runner::fail(const std::string& key, const std::string& msg) {
    counters_["failures"]++;
    if (nfail_[sec_ + "/" + key]++ >= 2) return;
    std::string cs;
    for (auto v : ch.taken) cs += std::to_string(v) + " ";
    fails_.push_back({sec_, idx_, key, msg, describe ? describe() : "", cs});
    if (verbose_)
        std::cerr << "FAIL " << sec_ << ":" << idx_ << " [" << key << "] "
            << msg << "\n" << fails_.back().desc << "\n choices: " << cs
            << "\n";
}

void Runner::count(const std::string& name, long n) {
    counters_[name] += n;
    slot->beat = slot->beat + 1;
}
void Runner::max(const std::string& name, long n) {
    auto& m = maxima_[name];
    if (n > m) m = n;
}
void Runner::distinct(const std::string& name, std::uint64_t h) {
    auto& d = distinct_[name];
    if (d.size() < 8000000) d.insert(h);
}
void Runner::sample(const std::string& s) {
    if (samples_.size() < 40 && sampled_.insert(sec_).second)
        samples_.push_back("[" + sec_ + ":" + std::to_string(idx_) + "] " + s);
}

static std::string esc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

void Runner::write_result(const std::string& path, bool done) {
    if (n_diverged) counters_["diverged"] = n_diverged;
    std::ofstream f(path);
    f << "{\"done\":" << (done ? "true" : "false") << ",\"counters\":{";
    bool first = true;
    for (auto& [k, v] : counters_) {
        f << (first ? "" : ",") << esc(k) << ":" << v; first = false; }
    f << "},\"maxima\":{";
    first = true;
    for (auto& [k, v] : maxima_) {
        f << (first ? "" : ",") << esc(k) << ":" << v; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples_) { f << (first ? "" : ",") << esc(s); first = false; }
    f << "],\"fails\":[";
    first = true;
    for (auto& x : fails_) {
        f << (first ? "" : ",") << "{\"section\":" << esc(x.sec)
          << ",\"index\":" << x.idx << ",\"key\":" << esc(x.key)
          << ",\"msg\":" << esc(x.msg) << ",\"desc\":" << esc(x.desc)
          << ",\"choices\":" << esc(x.choices) << "}";
        first = false;
    }
    f << "]}\n";
}

int Runner::finish() {
    slot->done = 1;
    if (!out_.empty()) {
        for (auto& [k, v] : distinct_) {
            std::ofstream f(out_ + ".d." + k, std::ios::binary);
            for (auto h : v)
                f.write(reinterpret_cast<const char*>(&h), sizeof h);
        }
        write_result(out_, true);
    }
    return 0;
}

// The parent re-executes the binary once per shard and watches the workers.
int Runner::parent() {
    std::string dir = arg("--tmp", "/tmp");
    if (only_idx_ >= 0) nshard_ = 1;
    double limit = std::stod(arg("--hang", "20"));
    struct W { pid_t pid; Slot* s; std::uint64_t beat; double t; bool end;
               double cpu; };
    std::vector<W> ws(nshard_);
    auto now = [] { timeval tv; gettimeofday(&tv, nullptr);
        return tv.tv_sec + 1e-6 * tv.tv_usec; };
    // CPU seconds used by a process of ours (a starved worker is not a hang)
    auto cpu = [](pid_t p) {
        std::ifstream f("/proc/" + std::to_string(p) + "/stat");
        std::string s, w; std::getline(f, s);
        auto q = s.rfind(')');
        if (q == std::string::npos) return 0.0;
        std::istringstream is(s.substr(q + 2));
        double u = 0, k = 0;
        for (int i = 3; i <= 15 && is >> w; i++) {
            if (i == 14) u = std::stod(w);
            if (i == 15) k = std::stod(w);
        }
        return (u + k) / sysconf(_SC_CLK_TCK);
    };
    std::ofstream ev(out_ + ".events");
    for (int i = 0; i < nshard_; i++) {
        std::string sp = out_ + ".slot" + std::to_string(i);
        { std::ofstream f(sp, std::ios::binary);
          std::vector<char> z(sizeof(Slot), 0); f.write(z.data(), z.size()); }
        int fd = ::open(sp.c_str(), O_RDWR);
        ws[i].s = static_cast<Slot*>(mmap(nullptr, sizeof(Slot),
            PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        ::close(fd);
        pid_t p = fork();
        if (p == 0) {
            std::vector<std::string> a = argv_;
            auto strip = [&](const std::string& n) {
                for (size_t k = 1; k + 1 < a.size(); k++)
                    if (a[k] == n) { a.erase(a.begin() + k, a.begin() + k + 2);
                        return; }
            };
            strip("--out");
            strip("--jobs");
            for (auto& s : {std::string("--jobs"), std::to_string(nshard_),
                    std::string("--shard"), std::to_string(i),
                    std::string("--slot"), sp, std::string("--out"),
                    out_ + ".r" + std::to_string(i)})
                a.push_back(s);
            std::vector<char*> c;
            for (auto& s : a) c.push_back(const_cast<char*>(s.c_str()));
            c.push_back(nullptr);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            if (arg("--asan", "") != "1") {
                rl = {4ul << 30, 4ul << 30};
                setrlimit(RLIMIT_AS, &rl);
            }
            execv("/proc/self/exe", c.data());
            _exit(126);
        }
        ws[i].pid = p; ws[i].beat = 0; ws[i].t = now(); ws[i].end = false;
        ws[i].cpu = 0;
    }
    int left = nshard_;
    while (left > 0) {
        usleep(20000);
        for (int i = 0; i < nshard_; i++) {
            auto& w = ws[i];
            if (w.end) continue;
            int st;
            if (waitpid(w.pid, &st, WNOHANG) == w.pid) {
                w.end = true; left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    std::string why = WIFSIGNALED(st) ?
                        "signal " + std::to_string(WTERMSIG(st)) :
                        "exit " + std::to_string(WEXITSTATUS(st));
                    ev << "crash\t" << i << "\t" << w.s->sec << "\t"
                       << w.s->idx << "\t" << why << "\n";
                }
                continue;
            }
            if (w.s->beat != w.beat) {
                w.beat = w.s->beat; w.t = now(); w.cpu = cpu(w.pid);
            } else if (now() - w.t > limit && cpu(w.pid) - w.cpu > 0.8 * limit) {
                kill(w.pid, SIGKILL);
                waitpid(w.pid, &st, 0);
                w.end = true; left--;
                ev << "hang\t" << i << "\t" << w.s->sec << "\t" << w.s->idx
                   << "\tno progress for " << limit << " s\n";
            }
        }
    }
    // Union of the distinct outcomes seen by the workers
    std::set<std::string> names;
    std::string base = out_.substr(out_.rfind('/') + 1);
    std::string folder = out_.substr(0, out_.size() - base.size());
    for (auto& e : std::filesystem::directory_iterator(
            folder.empty() ? "." : folder)) {
        std::string n = e.path().filename();
        if (n.rfind(base + ".r", 0) != 0) continue;
        auto q = n.find(".d.");
        if (q != std::string::npos) names.insert(n.substr(q + 3));
    }
    std::ofstream df(out_ + ".distinct");
    for (auto& n : names) {
        std::vector<std::uint64_t> all;
        for (int i = 0; i < nshard_; i++) {
            std::string p = out_ + ".r" + std::to_string(i) + ".d." + n;
            std::ifstream f(p, std::ios::binary);
            std::uint64_t h;
            while (f.read(reinterpret_cast<char*>(&h), sizeof h))
                all.push_back(h);
            std::filesystem::remove(p);
        }
        std::sort(all.begin(), all.end());
        all.erase(std::unique(all.begin(), all.end()), all.end());
        df << n << "\t" << all.size() << "\n";
    }
    ev << "end\n";
    return 0;
}

}  // namespace mc
