// a loopless backend with a virtual clock, good enough to demonstrate the behaviour of actors
#pragma once
#include "rotor.hpp"
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <list>
#include <map>
#include <string>
#include <vector>

namespace r = rotor;
namespace pt = boost::posix_time;

template <> inline auto rotor::actor_base_t::access<struct mini_fire, rotor::request_id_t, bool>(rotor::request_id_t id, bool cancelled) noexcept {
    return on_timer_trigger(id, cancelled);
}

struct mini_sup_t;
struct mini_world_t {
    struct timer_t {
        long at;
        r::timer_handler_base_t *handler;
        const void *locality;
    };
    long now = 0; // us
    std::list<timer_t> timers;
    std::vector<mini_sup_t *> leaders;
    inline bool step();
    inline void run() {
        while (step())
            ;
    }
    inline bool fire() { // the earliest timer
        if (timers.empty())
            return false;
        auto best = timers.begin();
        for (auto it = timers.begin(); it != timers.end(); ++it)
            if (it->at < best->at)
                best = it;
        auto t = *best;
        timers.erase(best);
        if (t.at > now)
            now = t.at;
        t.handler->owner->access<mini_fire, r::request_id_t, bool>(t.handler->request_id, false);
        return true;
    }
    inline void advance(long us) {
        auto until = now + us;
        run();
        while (true) {
            long at = -1;
            for (auto &t : timers)
                if (at < 0 || t.at < at)
                    at = t.at;
            if (at < 0 || at > until)
                break;
            fire();
            run();
        }
        now = until;
    }
};
inline mini_world_t &mini_world() {
    static mini_world_t w;
    return w;
}

struct mini_sup_config_t : r::supervisor_config_t {
    const void *locality = nullptr;
    using r::supervisor_config_t::supervisor_config_t;
};
template <typename S> struct mini_sup_builder_t : r::supervisor_config_builder_t<S> {
    using builder_t = typename S::template config_builder_t<S>;
    using parent_t = r::supervisor_config_builder_t<S>;
    using parent_t::parent_t;
    builder_t &&locality(const void *l) && {
        parent_t::config.locality = l;
        return std::move(*static_cast<builder_t *>(this));
    }
};

struct mini_sup_t : r::supervisor_t {
    using config_t = mini_sup_config_t;
    template <typename S> using config_builder_t = mini_sup_builder_t<S>;
    const void *locality;
    bool leader = false;

    explicit mini_sup_t(mini_sup_config_t &cfg) : r::supervisor_t{cfg}, locality{cfg.locality} {
        if (!locality) {
            auto *s = static_cast<mini_sup_t *>(cfg.supervisor);
            locality = s ? s->locality : this;
        }
    }
    r::address_ptr_t make_address() noexcept override { return instantiate_address(locality); }
    void do_initialize(r::system_context_t *ctx) noexcept override {
        r::supervisor_t::do_initialize(ctx);
        if (locality_leader == this) {
            leader = true;
            mini_world().leaders.push_back(this);
        }
    }
    ~mini_sup_t() override {
        if (leader) {
            auto &v = mini_world().leaders;
            for (auto it = v.begin(); it != v.end(); ++it)
                if (*it == this) {
                    v.erase(it);
                    break;
                }
        }
    }
    void start() noexcept override {}
    void shutdown() noexcept override { do_shutdown(); }
    void enqueue(r::message_ptr_t m) noexcept override { put(std::move(m)); }
    void do_start_timer(const pt::time_duration &d, r::timer_handler_base_t &h) noexcept override {
        mini_world().timers.push_back({mini_world().now + (long)d.total_microseconds(), &h, locality});
    }
    void do_cancel_timer(r::request_id_t id) noexcept override {
        auto &ts = mini_world().timers;
        for (auto it = ts.begin(); it != ts.end(); ++it) {
            // the identifiers are unique within a locality only
            if (it->handler->request_id == id && it->locality == locality) {
                auto *h = it->handler;
                ts.erase(it);
                h->owner->access<mini_fire, r::request_id_t, bool>(id, true);
                return;
            }
        }
        fprintf(stderr, "cancelling of unknown timer\n");
        exit(2);
    }
    size_t pump() { return do_process(); }
    bool has_messages() { return !queue.empty(); }
    r::state_t get_state() const { return state; }
};

inline bool mini_world_t::step() {
    auto copy = leaders;
    bool any = false;
    for (auto *l : copy) {
        bool alive = false;
        for (auto *x : leaders)
            alive = alive || x == l;
        if (alive && l->has_messages()) {
            r::intrusive_ptr_t<mini_sup_t> keep(l);
            l->pump();
            any = true;
        }
    }
    return any;
}

struct mini_ctx_t : r::system_context_t {
    int errors = 0;
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ee) noexcept override {
        ++errors;
        printf("on_error: %s\n", ee->message().c_str());
    }
};
using mini_ctx_ptr_t = r::intrusive_ptr_t<mini_ctx_t>;

#define CHECK(x)                                                                                                       \
    do {                                                                                                               \
        if (!(x)) {                                                                                                    \
            printf("FAILED: %s (line %d)\n", #x, __LINE__);                                                            \
            fflush(stdout);                                                                                            \
            _exit(1);                                                                                                  \
        }                                                                                                              \
    } while (0)
