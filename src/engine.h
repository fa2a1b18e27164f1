// Property-based testing engine: choice sequences, forked workers, shrinking, replay files.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace eng {
// exit status of a worker, the running case of which has no verdict
enum { NO_VERDICT = 79 };

// ---- source of choices ------------------------------------------------------------------
struct src_t {
    // next choice in [0, n); 0 is the "simplest" one
    uint32_t draw(uint32_t n);
    // inclusive range, lo is the simplest
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint32_t)(hi - lo + 1)); }
    // true with probability pct/100; false is the simplest
    bool chance(uint32_t pct) { return draw(100) >= 100 - pct; }
    template <typename T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }
    // index drawn with the given weights
    uint32_t weighted(std::initializer_list<uint32_t> w);

    // set-up
    void start_random(uint64_t seed, uint64_t index);
    void start_replay(const uint32_t *data, size_t n);
    std::vector<uint32_t> *sink_vec = nullptr;
    uint32_t *log = nullptr; // shared memory log of the choices made
    uint32_t *log_n = nullptr;
    uint32_t log_cap = 0;

    uint64_t hash = 0;
    uint64_t used = 0;

  private:
    uint64_t s = 0;
    const uint32_t *rep = nullptr;
    size_t rep_n = 0, rep_pos = 0;
    bool replaying = false;
};

// ---- per-case services --------------------------------------------------------------------
// reports a violation of the property and ends the (worker) process
[[noreturn]] void fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// the same, unless the failure is a listed known finding: then it is counted and the case goes on
void soft_fail(const char *tag, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// appends to the readable trace (kept only when the case is replayed verbosely or sampled)
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
// classification of the case
void label(const char *name);
void nontrivial();           // mark the current case as non-trivial by the rule of the property
void count(const char *name, uint64_t n = 1); // measured quantity summed over cases
bool thorough();
uint64_t seed();
uint64_t case_index();

#define EXPECT(cond, tag, ...)                                                                                         \
    do {                                                                                                               \
        if (!(cond))                                                                                                   \
            ::eng::fail(tag, __VA_ARGS__);                                                                             \
    } while (0)

// ---- what a property program defines ----------------------------------------------------------
struct property_t {
    const char *id;
    const char *rule;        // rule for non-triviality
    uint64_t quick_cases;    // number of cases, quick tier
    uint64_t thorough_cases; // number of cases, thorough tier
    unsigned batch;          // cases per forked process
    unsigned jobs;           // processes in parallel
    unsigned cpu_limit_s;    // a case using more CPU than that hangs
    unsigned wall_limit_s;   // (threaded programs) a case lasting longer than that hangs; 0 = no limit
    void (*run)(src_t &);
    void (*setup)();         // once per process, before any case (may be null)
};
extern property_t property;

} // namespace eng
