#include "engine.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sstream>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace eng {

static constexpr uint32_t LOG_CAP = 1u << 18;

struct shared_t { // one per worker slot, in shared memory
    uint64_t case_index;
    uint32_t failed;
    uint32_t done;      // cases completed in this batch
    char tag[64];
    char msg[4096];
    uint32_t log_n;
    uint32_t log[LOG_CAP];
};

struct case_result_t {
    uint64_t hash;
    uint8_t nontrivial;
};

// --- state of the current (worker) process
static shared_t *sh = nullptr;
static uint64_t g_seed = 1, g_index = 0;
static bool g_thorough = false;
static bool g_tracing = false;
static std::string *g_trace = nullptr;
static bool g_nontrivial = false;
static std::map<std::string, uint64_t> *g_labels = nullptr;
static std::set<std::string> *g_case_labels = nullptr;
static std::map<std::string, uint64_t> *g_counts = nullptr;
static int g_trace_fd = -1;

static uint64_t mix(uint64_t z) {
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void src_t::start_random(uint64_t seed, uint64_t index) {
    s = mix(seed * 0x9e3779b97f4a7c15ull + 0x1234567) ^ mix(index + 0x632be59bd9b4e019ull);
    replaying = false;
    hash = 1469598103934665603ull;
    used = 0;
}
void src_t::start_replay(const uint32_t *data, size_t n) {
    rep = data;
    rep_n = n;
    rep_pos = 0;
    replaying = true;
    hash = 1469598103934665603ull;
    used = 0;
}
uint32_t src_t::draw(uint32_t n) {
    uint32_t v = 0;
    if (replaying) {
        if (rep_pos < rep_n)
            v = rep[rep_pos++];
        v = n <= 1 ? 0 : v % n;
    } else if (n > 1) {
        s += 0x9e3779b97f4a7c15ull;
        v = (uint32_t)(((mix(s) >> 32) * (uint64_t)n) >> 32);
    }
    if (log && *log_n < log_cap)
        log[(*log_n)++] = v;
    hash = (hash ^ (v + 0x9e37 * n)) * 1099511628211ull;
    ++used;
    return v;
}
uint32_t src_t::weighted(std::initializer_list<uint32_t> w) {
    uint32_t sum = 0;
    for (auto x : w)
        sum += x;
    uint32_t v = draw(sum), i = 0;
    for (auto x : w) {
        if (v < x)
            return i;
        v -= x;
        ++i;
    }
    return i - 1;
}

static void flush_trace() {
    if (g_trace_fd >= 0 && g_trace) {
        auto r = syscall(SYS_write, g_trace_fd, g_trace->data(), g_trace->size());
        (void)r;
        g_trace->clear();
    }
}

static std::vector<std::pair<std::string, std::string>> known; // id, pattern
static bool matches_text(const std::string &text, std::string &which) {
    for (auto &k : known) {
        // every '&&'-separated part has to occur in "tag: msg"
        const std::string &pat = k.second;
        bool all = true;
        size_t b = 0;
        while (b <= pat.size()) {
            auto e = pat.find("&&", b);
            if (e == std::string::npos)
                e = pat.size();
            if (text.find(pat.substr(b, e - b)) == std::string::npos)
                all = false;
            b = e + 2;
        }
        if (all) {
            which = k.first;
            return true;
        }
    }
    return false;
}

static std::map<std::string, uint64_t> *g_known_hits = nullptr;
void soft_fail(const char *tag, const char *fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    std::string which;
    if (matches_text(std::string(tag) + ": " + buf, which)) {
        if (g_known_hits)
            ++(*g_known_hits)[which];
        return;
    }
    fail(tag, "%s", buf);
}
void fail(const char *tag, const char *fmt, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (sh && !__sync_lock_test_and_set(&sh->failed, 1)) {
        snprintf(sh->tag, sizeof sh->tag, "%s", tag);
        snprintf(sh->msg, sizeof sh->msg, "%s", buf);
    }
    trace("FAIL %s: %s", tag, buf);
    flush_trace();
    _exit(77);
}

void trace(const char *fmt, ...) {
    if (!g_tracing)
        return;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (g_trace_fd >= 0) {
        std::string s = std::string(buf) + "\n";
        auto r = syscall(SYS_write, g_trace_fd, s.data(), s.size());
        (void)r;
    } else if (g_trace && g_trace->size() < 20000) {
        *g_trace += buf;
        *g_trace += "\n";
    }
}
bool tracing() { return g_tracing; }
void label(const char *name) {
    if (g_case_labels)
        g_case_labels->insert(name);
}
void nontrivial() { g_nontrivial = true; }
void count(const char *name, uint64_t n) {
    if (g_counts)
        (*g_counts)[name] += n;
}
bool thorough() { return g_thorough; }
uint64_t seed() { return g_seed; }
uint64_t case_index() { return g_index; }

static void on_hang(int) {
    if (sh && !__sync_lock_test_and_set(&sh->failed, 1)) {
        snprintf(sh->tag, sizeof sh->tag, "hang");
        snprintf(sh->msg, sizeof sh->msg, "the case did not come to an end (endless loop or lost wake-up)");
    }
    _exit(78);
}

static void arm_hang() {
    itimerval tv{};
    tv.it_value.tv_sec = property.cpu_limit_s ? property.cpu_limit_s : 20;
    setitimer(ITIMER_PROF, &tv, nullptr);
    if (property.wall_limit_s) {
        itimerval w{};
        w.it_value.tv_sec = property.wall_limit_s;
        setitimer(ITIMER_REAL, &w, nullptr);
    }
}
static void child_init(shared_t *slot, const char *err_path) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sh = slot;
    signal(SIGPROF, on_hang);
    signal(SIGALRM, on_hang);
    if (err_path) {
        int fd = open(err_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
}

static void run_one(src_t &src) {
    g_nontrivial = false;
    if (g_case_labels)
        g_case_labels->clear();
    arm_hang();
    property.run(src);
}

// --- parent side
struct failure_t {
    uint64_t batch_from = 0, batch_idx = 0;
    bool batch = false;   // reproduces only after the preceding cases of its batch
    std::string tag, msg; // tag identifies the kind
    std::vector<uint32_t> choices;
};

static bool matches(const failure_t &f, std::string &which) { return matches_text(f.tag + ": " + f.msg, which); }

static std::string slurp(const std::string &p) {
    std::ifstream f(p);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

// name of a crash: sanitizer summary, assertion, or signal
static void classify_crash(int status, const std::string &err, failure_t &f) {
    std::string tag, msg;
    auto grab = [&](const char *key) -> std::string {
        auto p = err.find(key);
        if (p == std::string::npos)
            return {};
        auto b = err.rfind('\n', p);
        b = b == std::string::npos ? 0 : b + 1;
        auto e = err.find('\n', p);
        return err.substr(b, e - b);
    };
    std::string line;
    if (!(line = grab("Assertion `")).empty()) {
        tag = "assert";
        // drop absolute path of the program
        auto p = line.find("rotor/");
        msg = p == std::string::npos ? line : line.substr(p);
    } else if (!(line = grab("runtime error:")).empty()) {
        tag = "ubsan";
        msg = line;
    } else if (!(line = grab("SUMMARY: ")).empty()) {
        tag = "sanitizer";
        msg = line;
    } else if (!(line = grab("terminate called")).empty()) {
        tag = "terminate";
        msg = line;
        auto w = grab("what():");
        msg += " " + w;
    } else {
        tag = "crash";
        char b[64];
        if (WIFSIGNALED(status))
            snprintf(b, sizeof b, "killed by signal %d", WTERMSIG(status));
        else
            snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(status));
        msg = b;
    }
    f.tag = tag;
    f.msg = msg + "\n" + err.substr(0, 6000);
}

static std::string tmpdir;

static bool eval_once(const std::vector<uint32_t> &choices, shared_t *slot, failure_t &out, const char *trace_path) {
    memset(slot, 0, offsetof(shared_t, log));
    std::string err = tmpdir + "/shrink.err";
    pid_t pid = fork();
    if (pid == 0) {
        child_init(slot, err.c_str());
        g_tracing = trace_path != nullptr;
        if (trace_path)
            g_trace_fd = open(trace_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        src_t src;
        src.log = slot->log;
        src.log_n = &slot->log_n;
        src.log_cap = LOG_CAP;
        src.start_replay(choices.data(), choices.size());
        run_one(src);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
        ;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == NO_VERDICT) && !slot->failed)
        return false;
    out.choices.assign(slot->log, slot->log + slot->log_n);
    if (slot->failed) {
        out.tag = slot->tag;
        out.msg = slot->msg;
    } else
        classify_crash(st, slurp(err), out);
    return true;
}

// runs the cases [from, idx] of the given seed in one process; true when case idx fails again
static bool eval_batch(uint64_t seed, uint64_t from, uint64_t idx, shared_t *slot, failure_t &out,
                       const char *trace_path) {
    memset(slot, 0, offsetof(shared_t, log));
    std::string err = tmpdir + "/shrink.err";
    pid_t pid = fork();
    if (pid == 0) {
        child_init(slot, err.c_str());
        g_labels = new std::map<std::string, uint64_t>();
        g_case_labels = new std::set<std::string>();
        g_counts = new std::map<std::string, uint64_t>();
        g_trace = new std::string();
        src_t src;
        src.log = slot->log;
        src.log_n = &slot->log_n;
        src.log_cap = LOG_CAP;
        for (uint64_t i = from; i <= idx; ++i) {
            slot->case_index = i;
            slot->log_n = 0;
            g_index = i;
            src.start_random(seed, i);
            g_tracing = trace_path && i == idx;
            if (g_tracing)
                g_trace_fd = open(trace_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
            run_one(src);
        }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
        ;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == NO_VERDICT) && !slot->failed)
        return false;
    out.choices.assign(slot->log, slot->log + slot->log_n);
    if (slot->failed) {
        out.tag = slot->tag;
        out.msg = slot->msg;
    } else
        classify_crash(st, slurp(err), out);
    return slot->case_index == idx;
}

static double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// shortlex order
static bool simpler(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static failure_t shrink(failure_t best, shared_t *slot, double budget_s, unsigned max_runs, unsigned tries) {
    auto t0 = now_s();
    unsigned runs = 0;
    auto still = [&](const std::vector<uint32_t> &c) -> bool {
        if (runs++ > max_runs || now_s() - t0 > budget_s)
            return false;
        for (unsigned i = 0; i < tries; ++i) {
            failure_t f;
            std::string which;
            if (eval_once(c, slot, f, nullptr) && f.tag == best.tag && !matches(f, which)) {
                if (f.choices.size() > c.size())
                    f.choices.resize(c.size()); // what was read beyond the end is zero anyway
                while (!f.choices.empty() && f.choices.back() == 0)
                    f.choices.pop_back();
                if (simpler(f.choices, best.choices)) {
                    best = f;
                    return true;
                }
                return false;
            }
        }
        return false;
    };
    while (!best.choices.empty() && best.choices.back() == 0)
        best.choices.pop_back();
    bool progress = true;
    while (progress && runs < max_runs && now_s() - t0 < budget_s) {
        progress = false;
        // truncate
        for (size_t cut = best.choices.size() / 2; cut >= 1; cut /= 2) {
            while (best.choices.size() > cut) {
                auto c = best.choices;
                c.resize(c.size() - cut);
                if (!still(c))
                    break;
                progress = true;
            }
        }
        // delete chunks
        for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
            if (k > best.choices.size())
                continue;
            for (size_t i = best.choices.size() - k + 1; i-- > 0;) {
                if (i + k > best.choices.size())
                    continue;
                auto c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (still(c))
                    progress = true;
                if (now_s() - t0 > budget_s)
                    break;
            }
        }
        // zero chunks, lower values
        for (size_t k : {8, 4, 2, 1}) {
            for (size_t i = 0; i + k <= best.choices.size(); ++i) {
                auto c = best.choices;
                bool any = false;
                for (size_t j = 0; j < k; ++j) {
                    any |= c[i + j] != 0;
                    c[i + j] = 0;
                }
                if (any && still(c))
                    progress = true;
                if (now_s() - t0 > budget_s)
                    break;
            }
        }
        for (size_t i = 0; i < best.choices.size(); ++i) {
            uint32_t lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo) {
                auto c = best.choices;
                uint32_t v = c[i];
                c[i] = lo + (v - lo) / 2;
                if (c[i] == v || !still(c)) {
                    lo = lo + (v - lo) / 2 + 1;
                } else
                    progress = true;
                if (now_s() - t0 > budget_s)
                    break;
            }
        }
    }
    return best;
}

static std::string jesc(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if (c == '\n')
            r += "\\n";
        else if (c < 32 || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

struct worker_t {
    pid_t pid = 0;
    int fd = -1;
    std::string buf;
    shared_t *slot = nullptr;
    std::string err;
    uint64_t from = 0, to = 0;
};

static void write_all(int fd, const std::string &s) {
    size_t o = 0;
    while (o < s.size()) {
        auto r = write(fd, s.data() + o, s.size() - o);
        if (r <= 0)
            break;
        o += r;
    }
}

static void worker_main(worker_t &w, int fd, bool want_samples) {
    child_init(w.slot, w.err.c_str());
    g_labels = new std::map<std::string, uint64_t>();
    g_case_labels = new std::set<std::string>();
    g_counts = new std::map<std::string, uint64_t>();
    g_known_hits = new std::map<std::string, uint64_t>();
    g_trace = new std::string();
    std::string out;
    src_t src;
    src.log = w.slot->log;
    src.log_n = &w.slot->log_n;
    src.log_cap = LOG_CAP;
    unsigned samples = 0;
    for (uint64_t i = w.from; i < w.to; ++i) {
        w.slot->case_index = i;
        w.slot->log_n = 0;
        g_index = i;
        src.start_random(g_seed, i);
        g_tracing = want_samples && samples < 2;
        g_trace->clear();
        run_one(src);
        char b[64];
        snprintf(b, sizeof b, "R %llx %d\n", (unsigned long long)src.hash, g_nontrivial ? 1 : 0);
        out += b;
        for (auto &l : *g_case_labels)
            ++(*g_labels)[l];
        if (g_tracing && g_nontrivial) {
            ++samples;
            auto text = g_trace->substr(0, 3000);
            std::string esc;
            for (auto c : text)
                esc += c == '\n' ? '\x1f' : c;
            out += "S " + esc + "\n";
        }
        w.slot->done++;
        if (out.size() > 32000) {
            write_all(fd, out);
            out.clear();
        }
    }
    for (auto &kv : *g_labels)
        out += "L " + std::to_string(kv.second) + " " + kv.first + "\n";
    for (auto &kv : *g_known_hits)
        out += "K " + std::to_string(kv.second) + " " + kv.first + "\n";
    for (auto &kv : *g_counts)
        out += "C " + std::to_string(kv.second) + " " + kv.first + "\n";
    write_all(fd, out);
    // skip static destruction: sanitizer end-of-process work is done per case where wanted
    _exit(0);
}

static shared_t *make_slot() {
    auto p = mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return (shared_t *)p;
}

static std::vector<uint32_t> read_replay(const std::string &path) {
    std::ifstream f(path);
    std::string line;
    std::vector<uint32_t> r;
    while (std::getline(f, line)) {
        if (line.rfind("choices:", 0) == 0) {
            std::stringstream ss(line.substr(8));
            uint32_t v;
            while (ss >> v)
                r.push_back(v);
        }
    }
    return r;
}

static int run_main(int argc, char **argv) {
    std::string out_json, replay, replay_dir = ".", known_file;
    uint64_t cases = 0;
    unsigned jobs = property.jobs;
    double max_s = 0;
    bool show_trace = false;
    unsigned max_fail = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            g_seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--cases")
            cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--jobs")
            jobs = atoi(next().c_str());
        else if (a == "--tier")
            g_thorough = next() == "thorough";
        else if (a == "--max-seconds")
            max_s = atof(next().c_str());
        else if (a == "--out")
            out_json = next();
        else if (a == "--replay")
            replay = next();
        else if (a == "--replay-dir")
            replay_dir = next();
        else if (a == "--known")
            known_file = next();
        else if (a == "--trace")
            show_trace = true;
        else if (a == "--max-fail")
            max_fail = atoi(next().c_str());
    }
    char tmpl[] = "/tmp/verif-XXXXXX";
    tmpdir = mkdtemp(tmpl);
    struct rm_t {
        ~rm_t() {
            for (int i = 0; i < 64; ++i)
                unlink((tmpdir + "/w" + std::to_string(i) + ".err").c_str());
            unlink((tmpdir + "/shrink.err").c_str());
            rmdir(tmpdir.c_str());
        }
    } rm;
    if (property.setup)
        property.setup();
    shared_t *sslot = make_slot();
    if (!replay.empty()) {
        auto c = read_replay(replay);
        failure_t f;
        std::string tp = tmpdir + "/w0.err";
        bool bad = false;
        unsigned long long bs, bf, bi;
        auto text = slurp(replay);
        auto bp = text.find("\nbatch: ");
        if (bp != std::string::npos && sscanf(text.c_str() + bp, "\nbatch: %llu %llu %llu", &bs, &bf, &bi) == 3)
            bad = eval_batch(bs, bf, bi, sslot, f, tp.c_str());
        else
            bad = eval_once(c, sslot, f, tp.c_str());
        if (show_trace)
            printf("%s", slurp(tp).c_str());
        if (bad)
            printf("FAILS %s: %s\n", f.tag.c_str(), f.msg.c_str());
        else
            printf("PASSES\n");
        return bad ? 1 : 0;
    }
    if (!known_file.empty()) {
        std::ifstream f(known_file);
        std::string line;
        while (std::getline(f, line)) {
            auto p = line.find('\t');
            if (p != std::string::npos)
                known.emplace_back(line.substr(0, p), line.substr(p + 1));
        }
    }
    if (!cases)
        cases = g_thorough ? property.thorough_cases : property.quick_cases;
    auto t0 = now_s();
    std::vector<worker_t> ws(jobs);
    for (unsigned i = 0; i < jobs; ++i) {
        ws[i].slot = make_slot();
        ws[i].err = tmpdir + "/w" + std::to_string(i) + ".err";
    }
    uint64_t next_case = 0, evaluations = 0, batches = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, counts;
    std::map<std::string, uint64_t> known_hits;
    std::vector<std::string> samples;
    std::vector<std::pair<failure_t, std::string>> failures;
    unsigned flaky = 0, no_verdict = 0;
    std::string flaky_note;
    auto consume = [&](const std::string &text) {
        std::stringstream ss(text);
        std::string line;
        while (std::getline(ss, line)) {
            if (line[0] == 'R') {
                unsigned long long h;
                int nt;
                if (sscanf(line.c_str(), "R %llx %d", &h, &nt) == 2) {
                    ++evaluations;
                    if (nt)
                        distinct.insert(h);
                }
            } else if (line[0] == 'L' || line[0] == 'C' || line[0] == 'K') {
                auto p = line.find(' ', 2);
                auto n = strtoull(line.c_str() + 2, nullptr, 10);
                (line[0] == 'L' ? labels : line[0] == 'K' ? known_hits : counts)[line.substr(p + 1)] += n;
            } else if (line[0] == 'S') {
                auto t = line.substr(2);
                for (auto &c : t)
                    if (c == '\x1f')
                        c = '\n';
                if (samples.size() < 4)
                    samples.push_back(t);
            }
        }
    };
    auto launch = [&](worker_t &w) {
        bool sample = batches++ < 3;
        int p[2];
        if (pipe(p))
            abort();
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        memset(w.slot, 0, offsetof(shared_t, log));
        w.buf.clear();
        w.from = next_case;
        w.to = std::min<uint64_t>(cases, next_case + property.batch);
        next_case = w.to;
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]);
            for (auto &o : ws)
                if (o.fd >= 0)
                    close(o.fd);
            worker_main(w, p[1], sample);
        }
        close(p[1]);
        w.pid = pid;
        w.fd = p[0];
    };
    bool stop = false;
    while (true) {
        bool timeup = max_s > 0 && now_s() - t0 > max_s;
        if (timeup)
            stop = true;
        unsigned running = 0;
        for (auto &w : ws) {
            if (!w.pid && !stop && next_case < cases)
                launch(w);
            if (w.pid)
                ++running;
        }
        if (!running)
            break;
        std::vector<pollfd> pf;
        std::vector<worker_t *> idx;
        for (auto &w : ws)
            if (w.pid) {
                pf.push_back({w.fd, POLLIN, 0});
                idx.push_back(&w);
            }
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < pf.size(); ++i) {
            if (!(pf[i].revents & (POLLIN | POLLHUP)))
                continue;
            auto &w = *idx[i];
            char b[65536];
            auto r = read(w.fd, b, sizeof b);
            if (r > 0) {
                w.buf.append(b, r);
                continue;
            }
            int st = 0;
            while (waitpid(w.pid, &st, 0) < 0)
                ;
            close(w.fd);
            w.fd = -1;
            w.pid = 0;
            consume(w.buf);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !w.slot->failed)
                continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == NO_VERDICT && !w.slot->failed) {
                // the rest of the batch is made up for by extending the range
                if (w.slot->case_index + 1 < w.to)
                    cases += w.to - w.slot->case_index - 1;
                if (++no_verdict >= 16)
                    stop = true;
                continue;
            }
            // a failure
            failure_t f;
            f.choices.assign(w.slot->log, w.slot->log + w.slot->log_n);
            if (w.slot->failed) {
                f.tag = w.slot->tag;
                f.msg = w.slot->msg;
            } else
                classify_crash(st, slurp(w.err), f);
            evaluations += 1;
            uint64_t bad_case = w.slot->case_index;
            std::string which;
            if (matches(f, which)) {
                ++known_hits[which];
                // the rest of the batch is made up for by extending the range
                if (bad_case + 1 < w.to)
                    cases += w.to - bad_case - 1;
                continue;
            }
            if (failures.size() >= max_fail)
                continue;
            // does it fail again?
            failure_t again;
            unsigned fails = 0, attempts = property.wall_limit_s ? 12 : 3;
            for (unsigned k = 0; k < attempts; ++k) {
                failure_t g;
                if (eval_once(f.choices, sslot, g, nullptr)) {
                    ++fails;
                    again = g;
                }
            }
            fprintf(stderr, "case %llu failed (%s: %.200s), %u of %u repetitions fail\n", (unsigned long long)bad_case,
                    f.tag.c_str(), f.msg.c_str(), fails, attempts);
            if (!fails && eval_batch(g_seed, w.from, bad_case, sslot, again, nullptr)) {
                // depends on what ran before in the same process: the batch is the reproduction
                if (matches(again, which)) {
                    ++known_hits[which];
                    continue;
                }
                f = again;
                f.batch = true;
                f.batch_from = w.from;
                f.batch_idx = bad_case;
                failures.emplace_back(f, "");
                if (failures.size() >= max_fail)
                    stop = true;
                continue;
            }
            if (!fails) {
                ++flaky;
                if (flaky_note.empty())
                    flaky_note = f.tag + ": " + f.msg.substr(0, 500);
                if (property.wall_limit_s && f.tag != "hang") {
                    // real threads: the recorded observation itself is the evidence
                    failures.emplace_back(f, "");
                    stop = true;
                }
                continue;
            }
            if (matches(again, which)) {
                ++known_hits[which];
                continue;
            }
            f = again;
            double budget = 40;
            unsigned tries = fails == attempts ? 1 : 3;
            f = shrink(f, sslot, budget, 4000, tries);
            failures.emplace_back(f, "");
            if (failures.size() >= max_fail)
                stop = true;
        }
    }
    // write the replay files
    for (size_t i = 0; i < failures.size(); ++i) {
        auto &f = failures[i].first;
        std::string tp = tmpdir + "/w0.err";
        failure_t g;
        std::string tr;
        for (int k = 0; k < 5; ++k) {
            bool bad = f.batch ? eval_batch(g_seed, f.batch_from, f.batch_idx, sslot, g, tp.c_str())
                               : eval_once(f.choices, sslot, g, tp.c_str());
            tr = slurp(tp);
            if (bad)
                break;
        }
        std::string path = replay_dir + "/" + property.id + "-" + std::to_string(g_seed) + "-" + std::to_string(i) + ".replay";
        std::ofstream o(path);
        std::string prog = argv[0];
        prog = prog.substr(prog.rfind('/') + 1);
        o << "property: " << property.id << "\nprogram: " << prog << "\nseed: " << g_seed << "\nfailure: " << f.tag << ": " << f.msg
          << "\n";
        if (f.batch)
            o << "batch: " << g_seed << " " << f.batch_from << " " << f.batch_idx;
        else {
            o << "choices:";
            for (auto c : f.choices)
                o << " " << c;
        }
        o << "\n--- trace of the shrunk case\n" << tr;
        failures[i].second = path;
        fprintf(stderr, "failure: %s: %s\n%s\n", f.tag.c_str(), f.msg.c_str(), tr.substr(0, 6000).c_str());
    }
    if (!out_json.empty()) {
        std::ofstream o(out_json);
        o << "{\"property\":" << jesc(property.id) << ",\"evaluations\":" << evaluations
          << ",\"distinct_nontrivial\":" << distinct.size() << ",\"rule\":" << jesc(property.rule) << ",\"labels\":{";
        bool first = true;
        for (auto &kv : labels) {
            o << (first ? "" : ",") << jesc(kv.first) << ":" << kv.second;
            first = false;
        }
        o << "},\"counts\":{";
        first = true;
        for (auto &kv : counts) {
            o << (first ? "" : ",") << jesc(kv.first) << ":" << kv.second;
            first = false;
        }
        o << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i)
            o << (i ? "," : "") << jesc(samples[i]);
        o << "],\"known\":{";
        first = true;
        for (auto &kv : known_hits) {
            o << (first ? "" : ",") << jesc(kv.first) << ":" << kv.second;
            first = false;
        }
        o << "},\"no_verdict\":" << no_verdict << ",\"unrepeatable\":" << flaky << ",\"unrepeatable_note\":" << jesc(flaky_note) << ",\"wall_s\":" << now_s() - t0 << ",\"failures\":[";
        for (size_t i = 0; i < failures.size(); ++i)
            o << (i ? "," : "") << "{\"tag\":" << jesc(failures[i].first.tag)
              << ",\"msg\":" << jesc(failures[i].first.msg.substr(0, 2000)) << ",\"replay\":" << jesc(failures[i].second) << "}";
        o << "]}\n";
    }
    fprintf(stderr, "%s: %llu cases, %zu distinct non-trivial, %.1f s, %zu failures, %u unrepeatable\n", property.id,
            (unsigned long long)evaluations, distinct.size(), now_s() - t0, failures.size(), flaky);
    return failures.empty() ? 0 : 1;
}

} // namespace eng

int main(int argc, char **argv) {
    // deterministic addresses: hash containers keyed by pointers iterate in the same order on a replay
    if (!getenv("VERIF_ASLR_OFF")) {
        setenv("VERIF_ASLR_OFF", "1", 1);
        int cur = personality(0xffffffff);
        if (cur != -1 && personality(cur | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    return eng::run_main(argc, argv);
}

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=0:detect_stack_use_after_return=0:"
           "quarantine_size_mb=16:handle_abort=0:print_legend=0:malloc_context_size=12";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=75:second_deadlock_stack=1:die_after_fork=0"; }
// the free list of boost::lockfree::queue reads nodes which might be reused meanwhile, and then notices that
extern "C" const char *__tsan_default_suppressions() { return "race_top:boost/lockfree\n"; }
