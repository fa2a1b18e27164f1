#include "vt.h"
#include <cerrno>
#include <dlfcn.h>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/epoll.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace vt {
namespace {
enum class st_t { READY, MUTEX, COND, FD, SLEEP, PRED, DONE };
struct mutex_state_t {
    int owner = -1;
    int depth = 0;
};
struct thread_state_t {
    int id;
    std::string name;
    std::function<void()> body;
    sem_t sem;
    std::thread th;
    st_t st = st_t::READY;
    void *obj = nullptr;             // mutex or condition variable
    bool signalled = false;
    ns_t deadline = -1;              // -1: none
    std::function<bool()> pred;      // FD, PRED
    ns_t wake = 0;
    ns_t read = 0; // the last reading of a clock
    ns_t at[256];     // the last scheduling points passed
    uint64_t n_at = 0;
    ns_t longest = 0; // between the end of a wait and the beginning of the next one
};
struct sched_t {
    eng::src_t &src;
    opts_t o;
    ns_t now = 0;
    std::vector<std::unique_ptr<thread_state_t>> th;
    std::unordered_map<void *, mutex_state_t> mutexes;
    int cur = 0;
    int64_t left = 0;
    uint64_t switches = 0;
    sched_t(eng::src_t &s, opts_t op) : src{s}, o{std::move(op)} {}
};
sched_t *S = nullptr;
thread_local int tl_self = -1;
uint64_t g_switches = 0;
ns_t g_end = 0;

void new_quota() {
    auto k = S->o.quota ? S->src.draw(2 * S->o.quota) : 0;
    S->left = k ? k : (S->o.quota ? 64 * S->o.quota : 1000000);
}
bool ready(thread_state_t &t) {
    switch (t.st) {
    case st_t::READY:
        return true;
    case st_t::MUTEX: {
        auto it = S->mutexes.find(t.obj);
        return it == S->mutexes.end() || it->second.owner < 0;
    }
    case st_t::COND:
        return t.signalled || (t.deadline >= 0 && t.deadline <= S->now);
    case st_t::SLEEP:
        return t.deadline >= 0 && t.deadline <= S->now;
    case st_t::FD:
        return (t.deadline >= 0 && t.deadline <= S->now) || t.pred();
    case st_t::PRED:
    case st_t::DONE:
        return false;
    }
    return false;
}
void hand_over(int to) {
    if (to == S->cur)
        return;
    auto me = S->th[S->cur].get();
    auto done = me->st == st_t::DONE;
    S->cur = to;
    ++S->switches;
    sem_post(&S->th[to]->sem); // from here on the others run, nothing shared may be touched
    if (!done)
        while (sem_wait(&me->sem))
            ;
}
const char *st_name(st_t s) {
    static const char *n[] = {"ready", "waits for a mutex", "waits on a condition", "waits in its event loop", "sleeps", "waits", "finished"};
    return n[(int)s];
}
// picks the next thread to run; the current one may be blocked or done
int pick() {
    while (true) {
        int cand[64], n = 0;
        if (S->cur >= 0 && ready(*S->th[S->cur]))
            cand[n++] = S->cur;
        for (auto &t : S->th)
            if (t->id != S->cur && ready(*t) && n < 64)
                cand[n++] = t->id;
        if (n)
            return cand[n > 1 ? S->src.draw(n) : 0];
        bool all_done = true;
        for (auto &t : S->th)
            all_done = all_done && t->st == st_t::DONE;
        if (all_done)
            return -1;
        if (eng::tracing()) {
            std::string s;
            for (auto &t : S->th)
                if (t->st != st_t::DONE)
                    s += t->name + " " + st_name(t->st) + (t->deadline >= 0 ? " until " + std::to_string(t->deadline / US) : "") + "; ";
            eng::trace("%lld idle: %s", (long long)(S->now / US), s.c_str());
        }
        if (S->o.on_idle)
            S->o.on_idle();
        bool again = false;
        for (auto &t : S->th)
            if (t->st == st_t::PRED && t->pred()) {
                t->st = st_t::READY;
                again = true;
            }
        if (again)
            continue;
        ns_t d = -1;
        for (auto &t : S->th)
            if ((t->st == st_t::COND || t->st == st_t::SLEEP || t->st == st_t::FD) && t->deadline >= 0)
                d = d < 0 ? t->deadline : std::min(d, t->deadline);
        if (d < 0 || d > S->o.limit) {
            std::string s;
            for (auto &t : S->th)
                s += t->name + " " + st_name(t->st) + "; ";
            auto more = S->o.describe ? S->o.describe() : "";
            eng::fail("stuck", "%s: %s%s", d < 0 ? "nothing can go on" : "out of time", more.c_str(), s.c_str());
        }
        if (S->now < d)
            S->now = d;
    }
}
// the current thread gives up the token until it is ready again
void block() {
    auto &me = *S->th[S->cur];
    while (true) {
        auto to = pick();
        hand_over(to);
        if (ready(me))
            break;
    }
    me.st = st_t::READY;
    me.pred = nullptr;
    new_quota();
}
void woken(thread_state_t &t) { t.wake = S->now; }
bool managed() { return S && tl_self >= 0; }
void thread_main(thread_state_t *t) {
    tl_self = t->id;
    while (sem_wait(&t->sem))
        ;
    t->body();
    t->body = nullptr;
    t->st = st_t::DONE;
    auto to = pick();
    tl_self = -1;
    if (to >= 0)
        hand_over(to);
}
} // namespace

bool active() { return S; }
int self() { return tl_self; }
ns_t now() { return S ? S->now : 0; }
uint64_t switches() { return g_switches; }
ns_t end_time() { return g_end; }
ns_t last_wake(int t) { return S->th[t]->wake; }
ns_t longest_stretch(int t) { return std::max(S->th[t]->longest, S->now - S->th[t]->wake); }
ns_t point_time(int t, unsigned k) {
    auto &th = *S->th[t];
    return k < 256 && k < th.n_at ? th.at[(th.n_at - 1 - k) % 256] : -1;
}

void point() {
    if (!managed())
        return;
    auto &me = *S->th[S->cur];
    me.at[me.n_at++ % 256] = S->now;
    if (--S->left > 0)
        return;
    hand_over(pick());
    new_quota();
}
void advance(ns_t d) {
    if (!managed())
        return;
    S->now += d;
    point();
}
void sleep(ns_t d) {
    auto &me = *S->th[S->cur];
    me.st = st_t::SLEEP;
    me.deadline = S->now + d;
    block();
    woken(me);
}
void wait(std::function<bool()> pred) {
    auto &me = *S->th[S->cur];
    me.st = st_t::PRED;
    me.pred = std::move(pred);
    block();
}
int spawn(const std::string &name, std::function<void()> body) {
    auto t = std::make_unique<thread_state_t>();
    t->id = (int)S->th.size();
    t->name = name;
    t->body = std::move(body);
    sem_init(&t->sem, 0, 0);
    auto p = t.get();
    p->wake = p->read = S->now;
    S->th.push_back(std::move(t));
    if (p->id)
        p->th = std::thread(thread_main, p);
    return p->id;
}
void run(eng::src_t &src, opts_t opts, std::function<void()> main_body) {
    sched_t sched(src, std::move(opts));
    S = &sched;
    S->now = S->o.start;
    S->o.limit += S->o.start;
    spawn("main", nullptr);
    tl_self = 0;
    new_quota();
    main_body();
    auto &me = *S->th[0];
    // wait for the others
    me.st = st_t::PRED;
    me.pred = [] {
        for (auto &t : S->th)
            if (t->id && t->st != st_t::DONE)
                return false;
        return true;
    };
    // a finished thread is not "idle": check directly
    while (!me.pred()) {
        auto to = pick();
        hand_over(to);
        if (me.st == st_t::READY)
            break;
    }
    tl_self = -1;
    for (auto &t : sched.th) {
        if (t->th.joinable())
            t->th.join();
        sem_destroy(&t->sem);
    }
    g_switches = sched.switches;
    g_end = sched.now;
    S = nullptr;
}
} // namespace vt

// ---- what the code under test calls ---------------------------------------------------------------------
using namespace vt;
template <typename F> static F real(const char *name) { return (F)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto fn = real<decltype(&name)>(#name)

static constexpr ns_t MONO_BASE = 1000 * SEC, REAL_BASE = 1700000000ll * SEC;
static ns_t read_clock() {
    S->now += S->o.step;
    point();
    return S->th[tl_self]->read = S->now;
}
// the end of a wait with a relative timeout, which has been computed from the last reading of the clock: being
// suspended between the two does not prolong the wait
static ns_t wait_end(thread_state_t &t, ns_t timeout) {
    return timeout < 0 ? -1 : std::max(S->now, t.read + timeout);
}
static void to_ts(ns_t v, timespec *ts) {
    ts->tv_sec = v / SEC;
    ts->tv_nsec = v % SEC;
}
static ns_t from_abs(const timespec *ts) {
    ns_t v = ts->tv_sec * SEC + ts->tv_nsec;
    return v >= REAL_BASE - 1000 * SEC ? v - REAL_BASE : v - MONO_BASE;
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
    if (!managed()) {
        if (S) {
            to_ts((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE) + S->now, ts);
            return 0;
        }
        return (int)syscall(SYS_clock_gettime, c, ts);
    }
    to_ts((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE) + read_clock(), ts);
    return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *t) noexcept {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
int nanosleep(const struct timespec *d, struct timespec *rem) {
    if (!managed()) {
        REAL(nanosleep);
        return fn(d, rem);
    }
    vt::sleep(d->tv_sec * SEC + d->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec *d, struct timespec *rem) {
    if (!managed()) {
        REAL(clock_nanosleep);
        return fn(c, flags, d, rem);
    }
    if (flags & TIMER_ABSTIME) {
        auto t = from_abs(d) - S->now;
        vt::sleep(t > 0 ? t : 0);
    } else
        vt::sleep(d->tv_sec * SEC + d->tv_nsec);
    return 0;
}
int usleep(useconds_t us) {
    timespec ts;
    to_ts(us * US, &ts);
    return nanosleep(&ts, nullptr);
}
int sched_yield() noexcept {
    if (!managed()) {
        REAL(sched_yield);
        return fn();
    }
    S->left = 0;
    S->now += S->o.step;
    point();
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    if (!managed()) {
        REAL(pthread_mutex_lock);
        return fn(m);
    }
    point();
    auto me = tl_self;
    auto *s = &S->mutexes[m];
    if (s->owner == me) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
            ++s->depth;
            return 0;
        }
        eng::fail("deadlock", "a thread locks a mutex it has already locked");
    }
    if (s->owner >= 0) {
        auto &t = *S->th[me];
        t.st = st_t::MUTEX;
        t.obj = m;
        block();
        s = &S->mutexes[m];
    }
    s->owner = me;
    s->depth = 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    if (!managed()) {
        REAL(pthread_mutex_trylock);
        return fn(m);
    }
    point();
    auto &s = S->mutexes[m];
    if (s.owner >= 0 && !(s.owner == tl_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE))
        return EBUSY;
    s.owner = tl_self;
    ++s.depth;
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    if (managed()) {
        auto it = S->mutexes.find(m);
        if (it != S->mutexes.end() && it->second.owner == tl_self) {
            if (--it->second.depth == 0) {
                S->mutexes.erase(it);
                point();
            }
            return 0;
        }
    }
    REAL(pthread_mutex_unlock);
    return fn(m);
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, ns_t deadline) {
    auto &t = *S->th[tl_self];
    auto depth = S->mutexes[m].depth;
    // the other threads may run between the decision to wait and the release of the mutex
    point();
    S->mutexes.erase(m);
    t.st = st_t::COND;
    t.obj = c;
    t.signalled = false;
    t.deadline = deadline;
    block();
    bool timeout = !t.signalled;
    t.obj = nullptr;
    woken(t);
    pthread_mutex_lock(m);
    S->mutexes[m].depth = depth;
    return timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!managed()) {
        REAL(pthread_cond_wait);
        return fn(c, m);
    }
    return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!managed()) {
        REAL(pthread_cond_timedwait);
        return fn(c, m, ts);
    }
    auto d = from_abs(ts);
    return cond_wait(c, m, d < 0 ? 0 : d);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    if (!managed()) {
        auto fn = real<int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)>("pthread_cond_clockwait");
        return fn(c, m, CLOCK_MONOTONIC, ts);
    }
    auto d = from_abs(ts);
    return cond_wait(c, m, d < 0 ? 0 : d);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept {
    if (!managed()) {
        REAL(pthread_cond_signal);
        return fn(c);
    }
    int w[64], n = 0;
    for (auto &t : S->th)
        if (t->st == st_t::COND && t->obj == c && !t->signalled && n < 64)
            w[n++] = t->id;
    if (n)
        S->th[w[n > 1 ? S->src.draw(n) : 0]]->signalled = true;
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
    if (!managed()) {
        REAL(pthread_cond_broadcast);
        return fn(c);
    }
    for (auto &t : S->th)
        if (t->st == st_t::COND && t->obj == c)
            t->signalled = true;
    point();
    return 0;
}
ssize_t write(int fd, const void *buf, size_t n) {
    point();
    return syscall(SYS_write, fd, buf, n);
}
int timerfd_create(int, int) noexcept { // event loops fall back to timeouts, which are virtual
    errno = ENOSYS;
    return -1;
}
int epoll_wait(int fd, struct epoll_event *ev, int max, int timeout) {
    auto now_ready = [=] { return (int)syscall(SYS_epoll_wait, fd, ev, max, 0); };
    if (!managed())
        return (int)syscall(SYS_epoll_wait, fd, ev, max, timeout);
    point();
    int n = now_ready();
    auto &t = *S->th[tl_self];
    t.longest = std::max(t.longest, S->now - t.wake);
    if (n == 0 && timeout != 0) {
        t.st = st_t::FD;
        t.deadline = wait_end(t, timeout < 0 ? -1 : timeout * MS);
        t.pred = [fd] {
            struct pollfd p = {fd, POLLIN, 0};
            struct timespec z = {0, 0};
            return syscall(SYS_ppoll, &p, 1, &z, nullptr, 0) > 0;
        };
        block();
        n = now_ready();
    }
    woken(t);
    return n;
}
int poll(struct pollfd *fds, nfds_t nf, int timeout) {
    struct timespec z = {0, 0};
    if (!managed()) {
        struct timespec ts;
        if (timeout >= 0)
            to_ts(timeout * MS, &ts);
        return (int)syscall(SYS_ppoll, fds, nf, timeout < 0 ? nullptr : &ts, nullptr, 0);
    }
    point();
    int n = (int)syscall(SYS_ppoll, fds, nf, &z, nullptr, 0);
    auto &t = *S->th[tl_self];
    t.longest = std::max(t.longest, S->now - t.wake);
    if (n == 0 && timeout != 0) {
        t.st = st_t::FD;
        t.deadline = wait_end(t, timeout < 0 ? -1 : timeout * MS);
        t.pred = [fds, nf] {
            struct timespec z = {0, 0};
            return syscall(SYS_ppoll, fds, nf, &z, nullptr, 0) > 0;
        };
        block();
        n = (int)syscall(SYS_ppoll, fds, nf, &z, nullptr, 0);
    }
    woken(t);
    return n;
}
int select(int nf, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (!managed()) {
        struct timespec ts;
        if (tv) {
            ts.tv_sec = tv->tv_sec;
            ts.tv_nsec = tv->tv_usec * 1000;
        }
        return (int)syscall(SYS_pselect6, nf, r, w, e, tv ? &ts : nullptr, nullptr);
    }
    point();
    struct sets_t {
        fd_set r, w, e;
    } in;
    auto copy = [](fd_set &d, fd_set *s) {
        if (s)
            d = *s;
        else
            FD_ZERO(&d);
    };
    copy(in.r, r);
    copy(in.w, w);
    copy(in.e, e);
    auto probe = [nf, r, w, e, &in](fd_set *ro, fd_set *wo, fd_set *eo) {
        struct timespec z = {0, 0};
        *ro = in.r;
        *wo = in.w;
        *eo = in.e;
        return (int)syscall(SYS_pselect6, nf, r ? ro : nullptr, w ? wo : nullptr, e ? eo : nullptr, &z, nullptr);
    };
    fd_set a, b, c;
    int n = probe(&a, &b, &c);
    auto &t = *S->th[tl_self];
    t.longest = std::max(t.longest, S->now - t.wake);
    ns_t timeout = tv ? tv->tv_sec * SEC + tv->tv_usec * US : -1;
    if (n == 0 && timeout != 0) {
        t.st = st_t::FD;
        t.deadline = wait_end(t, timeout);
        t.pred = [&probe] {
            fd_set a, b, c;
            return probe(&a, &b, &c) > 0;
        };
        block();
        n = probe(&a, &b, &c);
    }
    woken(t);
    if (r)
        *r = a;
    if (w)
        *w = b;
    if (e)
        *e = c;
    return n;
}
}
