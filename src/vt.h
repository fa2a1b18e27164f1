// Virtual threads and virtual time for the programs that exercise the real backends.
//
// Real threads run one at a time (a token is passed on); who runs next is a choice of the case, hence a schedule is
// generated, replayed and shrunk like any other input. Scheduling points: clock readings, mutexes, condition variables,
// epoll/poll/select, sleeps and vt::point(). The clocks show virtual time, which goes on with every reading and jumps
// forward only when nothing can run ("idle").
#pragma once
#include "engine.h"
#include <cstdint>
#include <functional>

namespace vt {
using ns_t = int64_t;
static constexpr ns_t US = 1000, MS = 1000 * US, SEC = 1000 * MS;

struct opts_t {
    ns_t step = US;      // time taken by a reading of the clock
    uint32_t quota = 8;  // mean number of scheduling points between two switches (0: only when blocked)
    ns_t start = 0;
    ns_t limit = 3600 * SEC;
    std::function<void()> on_idle;              // nothing can run: called before the time jumps
    std::function<std::string()> describe;      // text for "stuck"
};
// runs main_body as thread 0; returns when it and all spawned threads are finished
void run(eng::src_t &src, opts_t opts, std::function<void()> main_body);
int spawn(const std::string &name, std::function<void()> body); // may be called by managed threads
int self();       // -1: not a managed thread
bool active();
ns_t now();       // reads the clock without a scheduling point
void point();     // may switch to another thread
void advance(ns_t d); // the current thread is busy for that long; others may run
void sleep(ns_t d);
void wait(std::function<bool()> pred); // until pred holds at an idle moment
ns_t last_wake(int thread);            // when the thread last returned from a (possibly immediate) wait
ns_t longest_stretch(int thread);       // the longest time between two waits so far
ns_t point_time(int thread, unsigned k); // when the thread passed its k-th last scheduling point, -1: never
ns_t end_time();                       // of the last run
uint64_t switches();
} // namespace vt
