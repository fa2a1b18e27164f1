// Simulated event loop(s) for rotor: virtual clock, any number of localities, scheduler driven by choices.
#pragma once
#include "engine.h"
#include "rotor.hpp"
#include "rotor/registry.h"
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <optional>

namespace sim {
namespace to {
struct on_timer_trigger {};
struct get_plugin {};
struct state {};
} // namespace to
} // namespace sim

namespace rotor {
template <> inline auto &actor_base_t::access<sim::to::state>() noexcept { return state; }
template <>
inline auto actor_base_t::access<sim::to::on_timer_trigger, request_id_t, bool>(request_id_t id,
                                                                                bool cancelled) noexcept {
    on_timer_trigger(id, cancelled);
}
} // namespace rotor

namespace sim {
namespace r = rotor;
namespace pt = boost::posix_time;
using eng::src_t;

enum hook_t { H_CTOR, H_INIT_START, H_INIT_FINISH, H_ON_START, H_SHUTDOWN_START, H_SHUTDOWN_FINISH, H_DTOR, H_COUNT };
inline const char *hook_name(int h) {
    static const char *n[] = {"ctor", "init_start", "init_finish", "on_start", "shutdown_start", "shutdown_finish", "dtor"};
    return n[h];
}

// what the monitor knows about one actor (outlives the actor)
struct mon_t {
    int id = -1;
    std::string name;
    int parent = -1;
    int loc = -1;
    bool sup = false;
    int tag = 0;                       // free for the property
    uint64_t n[H_COUNT] = {0};         // how often each hook ran
    uint64_t at[H_COUNT] = {0};        // event number of the (last) run
    uint64_t t_at[H_COUNT] = {0};      // virtual time of it
    r::extended_error_ptr_t reason;    // shutdown reason at shutdown_finish
    r::extended_error_ptr_t first_reason; // at shutdown_start
    r::actor_base_t *ptr = nullptr;    // live object
    std::vector<int> children;
    bool down_done = false;            // shutdown_finish() has returned
    bool asked = false;                // do_shutdown() was called
    bool alive() const { return n[H_CTOR] && !n[H_DTOR]; }
    bool down() const { return n[H_SHUTDOWN_FINISH] > 0; }
    bool stopping() const { return n[H_SHUTDOWN_START] > 0; }
    bool operational() const { return n[H_ON_START] > 0 && !stopping(); }
    bool initialized() const { return n[H_INIT_FINISH] > 0; }
    // phase as the monitor has seen it: 0 new 1 initializing 2 initialized 3 operational 4 shutting down 5 shut down
    int phase() const {
        return down() ? 5 : stopping() ? 4 : n[H_ON_START] ? 3 : n[H_INIT_FINISH] ? 2 : n[H_INIT_START] ? 1 : 0;
    }
};

struct sup_t;
struct timer_rec_t {
    r::request_id_t id;
    r::timer_handler_base_t *handler;
    uint64_t deadline;
    uint64_t seq;
    sup_t *sup;
    int owner; // monitor id of the owning actor or -1
    uint64_t interval;
    uint64_t started_at; // event number
};

struct loc_t {
    int id;
    std::deque<r::message_ptr_t> inbound;
    sup_t *leader = nullptr;
};

struct ctx_t : r::system_context_t {
    int id = 0;
    void on_error(r::actor_base_t *actor, const r::extended_error_ptr_t &ec) noexcept override;
    std::string identity() noexcept override { return "sim"; }
    ~ctx_t();
};

struct world_t {
    src_t &src;
    explicit world_t(src_t &s);
    ~world_t();

    uint64_t now = 0; // virtual time, us
    uint64_t ev_no = 0;
    std::vector<std::unique_ptr<loc_t>> locs;
    std::list<timer_rec_t> timers;
    uint64_t timer_seq = 0;
    std::vector<std::unique_ptr<mon_t>> mons;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<r::intrusive_ptr_t<sup_t>> keep; // the "external references" of the user
    int cur_loc = -1; // locality whose code is executing (-1: none)
    int next_parent = -1;
    std::string next_name;
    int next_tag = 0;
    struct error_rec_t {
        int actor;
        std::string msg;
        std::error_code root;
    };
    std::vector<error_rec_t> errors; // what was reported to the system contexts
    uint64_t live_objects = 0;
    std::vector<std::pair<r::request_id_t, int>> fired; // (timer id, locality) fired in this case
    std::vector<void *> noise;

    std::function<void(mon_t &, hook_t)> on_hook; // called before the base hook runs (ctor: after)
    std::function<void(mon_t &, hook_t)> after_hook;

    loc_t *new_loc();
    loc_t *loc(int i) { return locs[i].get(); }
    mon_t &mon(int i) { return *mons[i]; }
    mon_t &new_mon(r::actor_base_t *a, bool sup, int loc);
    void hook(mon_t &m, hook_t h);

    // processing
    bool has_work(int l);
    bool process(int l, size_t max_inbound = (size_t)-1); // true when there was something to do
    bool any_work();
    void drain(bool random_order = true); // process all localities to quiescence (no timers)
    // timers
    std::list<timer_rec_t>::iterator earliest();
    bool fire_earliest(uint64_t limit = (uint64_t)-1); // fires one timer with the minimal deadline if deadline<=limit
    void fire(std::list<timer_rec_t>::iterator it);
    // runs everything until no work and no timer with deadline <= limit is left
    void settle(uint64_t limit);
    // one scheduler step; returns false when nothing can be done
    bool step(uint64_t timer_limit);
    // executes code "in the thread" of a locality
    template <typename F> void in_loc(int l, F &&f) {
        auto old = cur_loc;
        cur_loc = l;
        f();
        cur_loc = old;
    }
};
extern world_t *W;

constexpr uint64_t MS = 1000, SEC = 1000000, FAR = 1000 * SEC;
inline pt::time_duration us(uint64_t v) { return pt::microseconds(v); }

// ---- monitored actor / supervisor ------------------------------------------------------------
template <typename Base> struct mon_base_t : Base {
    mon_t *m = nullptr;
    void do_shutdown(const r::extended_error_ptr_t &reason = {}) noexcept override {
        m->asked = true;
        Base::do_shutdown(reason);
    }
    void init_start() noexcept override {
        W->hook(*m, H_INIT_START);
        Base::init_start();
        if (W->after_hook)
            W->after_hook(*m, H_INIT_START);
    }
    void init_finish() noexcept override {
        W->hook(*m, H_INIT_FINISH);
        Base::init_finish();
        if (W->after_hook)
            W->after_hook(*m, H_INIT_FINISH);
    }
    void on_start() noexcept override {
        W->hook(*m, H_ON_START);
        Base::on_start();
        if (W->after_hook)
            W->after_hook(*m, H_ON_START);
    }
    void shutdown_start() noexcept override {
        m->first_reason = Base::get_shutdown_reason();
        W->hook(*m, H_SHUTDOWN_START);
        Base::shutdown_start();
        if (W->after_hook)
            W->after_hook(*m, H_SHUTDOWN_START);
    }
    void shutdown_finish() noexcept override {
        m->reason = Base::get_shutdown_reason();
        W->hook(*m, H_SHUTDOWN_FINISH);
        Base::shutdown_finish();
        m->down_done = true;
        if (W->after_hook)
            W->after_hook(*m, H_SHUTDOWN_FINISH);
    }
    ~mon_base_t() {
        W->hook(*m, H_DTOR);
        m->ptr = nullptr;
        --W->live_objects;
    }

  protected:
    template <typename C> explicit mon_base_t(C &c) : Base(c) { ++W->live_objects; }
};

template <typename Supervisor> struct sup_config_builder_t;
struct sup_config_t : r::supervisor_config_t {
    using r::supervisor_config_t::supervisor_config_t;
    loc_t *loc = nullptr;
};

struct sup_t : mon_base_t<r::supervisor_t> {
    using parent_t = mon_base_t<r::supervisor_t>;
    using config_t = sup_config_t;
    template <typename S> using config_builder_t = sup_config_builder_t<S>;

    explicit sup_t(sup_config_t &cfg);
    ~sup_t();
    loc_t *loc;

    r::address_ptr_t make_address() noexcept override { return instantiate_address(loc); }
    void do_start_timer(const pt::time_duration &interval, r::timer_handler_base_t &handler) noexcept override;
    void do_cancel_timer(r::request_id_t timer_id) noexcept override;
    void start() noexcept override {}
    void shutdown() noexcept override {
        auto ec = r::make_error_code(r::shutdown_code_t::normal);
        auto msg = r::make_message<r::payload::shutdown_trigger_t>(supervisor->get_address(), address, make_error(ec));
        supervisor->enqueue(msg);
    }
    void enqueue(r::message_ptr_t message) noexcept override;
    void do_initialize(r::system_context_t *ctx) noexcept override;
    void intercept(r::message_ptr_t &message, const void *tag, const r::continuation_t &cont) noexcept override;
    void configure(r::plugin::plugin_base_t &p) noexcept override;
    void on_child_init(r::actor_base_t *actor, const r::extended_error_ptr_t &ec) noexcept override {
        r::supervisor_t::on_child_init(actor, ec);
        if (child_init_fn)
            child_init_fn(actor, ec);
    }
    r::plugin::resources_plugin_t *res() { return resources; }
    using r::actor_base_t::make_error;
    using r::actor_base_t::cancel_timer;
    using r::actor_base_t::identity;

    size_t queue_len() { return queue.size(); }
    size_t requests_len() { return request_map.size(); }
    // as the thread-safe backends do
    void push_inbound(r::message_ptr_t message) { inbound_queue.push(message.detach()); }
    bool is_leader() { return locality_leader == this; }
    int phase() { return (int)state; }

    std::function<void(r::plugin::plugin_base_t &)> cfg_fn;
    std::function<bool(r::message_ptr_t &, const void *, const r::continuation_t &)> intercept_fn;
    std::function<void(r::actor_base_t *, const r::extended_error_ptr_t &)> child_init_fn;
};
// uses the delivery that release builds use by default
struct sup_plain_t : sup_t {
    using sup_t::sup_t;
    using plugins_list_t =
        std::tuple<r::plugin::address_maker_plugin_t, r::plugin::locality_plugin_t,
                   r::plugin::delivery_plugin_t<r::plugin::local_delivery_t>, r::plugin::lifetime_plugin_t,
                   r::plugin::init_shutdown_plugin_t, r::plugin::foreigners_support_plugin_t,
                   r::plugin::child_manager_plugin_t, r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t,
                   r::plugin::registry_plugin_t, r::plugin::resources_plugin_t, r::plugin::starter_plugin_t>;
};

template <typename Supervisor> struct sup_config_builder_t : r::supervisor_config_builder_t<Supervisor> {
    using builder_t = typename Supervisor::template config_builder_t<Supervisor>;
    using parent_t = r::supervisor_config_builder_t<Supervisor>;
    using parent_t::parent_t;
    builder_t &&loc(loc_t *l) && {
        parent_t::config.loc = l;
        return std::move(*this);
    }
};

// ---- a generic user actor ------------------------------------------------------------------------
// M<k>: user messages; the canary detects payloads that were corrupted or used after destruction
template <int K> struct payload_t {
    uint64_t id;
    int sender;
    uint64_t seq;
    std::shared_ptr<uint64_t> canary;
    payload_t(uint64_t id_, int sender_ = -1, uint64_t seq_ = 0)
        : id{id_}, sender{sender_}, seq{seq_}, canary{std::make_shared<uint64_t>(id_ * 31 + K)} {}
    bool intact() const { return canary && *canary == id * 31 + K; }
};
template <int K> using msg_t = r::message_t<payload_t<K>>;

struct act_t : mon_base_t<r::actor_base_t> {
    using config_t = r::actor_config_t;
    template <typename A> using config_builder_t = r::actor_config_builder_t<A>;
    explicit act_t(config_t &cfg);

    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        if (cfg_fn)
            cfg_fn(p);
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override { return unlink_fn ? unlink_fn(a) : r::actor_base_t::on_unlink(a); }
    bool should_restart() const noexcept override { return restart_fn ? restart_fn() : r::actor_base_t::should_restart(); }
    int phase() const { return (int)state; }
    r::plugin::resources_plugin_t *res() { return resources; }
    template <typename P> P *plugin() { return static_cast<P *>(get_plugin(P::class_identity)); }
    size_t timers_len() { return timers_map.size(); }
    size_t requests_len() { return active_requests.size(); }

    std::function<void(r::plugin::plugin_base_t &)> cfg_fn;
    std::function<bool(const r::address_ptr_t &)> unlink_fn;
    std::function<bool()> restart_fn;
    using r::actor_base_t::make_error;
    using r::actor_base_t::address;
    using r::actor_base_t::identity;
    using r::actor_base_t::cancel_timer;
};

// helper: behaviour for the next created act_t/sup_t (the constructor picks it up)
struct next_t {
    std::function<void(r::plugin::plugin_base_t &)> cfg_fn;
    std::function<bool(const r::address_ptr_t &)> unlink_fn;
    std::function<void(r::actor_base_t *)> ctor_fn;
};
extern next_t NEXT;

template <typename S = sup_t, typename B> auto with_defaults(B &&b, loc_t *l) {
    return std::move(b).loc(l).timeout(us(FAR));
}

// ---- convenience: creation -----------------------------------------------------------------------
struct sup_opts_t {
    loc_t *loc = nullptr;
    uint64_t timeout = FAR;
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    bool sync = false, registry = false, escalate = false, autoshutdown = false, plain = false;
    r::address_ptr_t registry_addr;
    uint64_t init_timeout = 0, shutdown_timeout = 0; // 0: timeout
    const std::atomic_bool *flag = nullptr;
    uint64_t flag_interval = 0;
    std::string name;
    int tag = 0;
};
// (the builder's methods change it in place, whatever they return)
template <typename B> auto apply_opts(B &&b, const sup_opts_t &o) {
    (void)std::move(b).loc(o.loc).timeout(us(o.timeout)).policy(o.policy);
    if (o.init_timeout)
        (void)std::move(b).init_timeout(us(o.init_timeout));
    if (o.shutdown_timeout)
        (void)std::move(b).shutdown_timeout(us(o.shutdown_timeout));
    if (o.sync)
        (void)std::move(b).synchronize_start();
    if (o.registry)
        (void)std::move(b).create_registry();
    if (o.registry_addr)
        (void)std::move(b).registry_address(o.registry_addr);
    if (o.escalate)
        (void)std::move(b).escalate_failure();
    if (o.autoshutdown)
        (void)std::move(b).autoshutdown_supervisor();
    if (o.flag)
        (void)std::move(b).shutdown_flag(*o.flag, us(o.flag_interval));
    return std::move(b).finish();
}
template <typename S = sup_t, typename P = sup_plain_t> sup_t *make_root(const sup_opts_t &o) {
    r::intrusive_ptr_t<ctx_t> c(new ctx_t());
    c->id = (int)W->ctxs.size();
    W->ctxs.push_back(c);
    W->next_name = o.name;
    W->next_tag = o.tag;
    r::intrusive_ptr_t<sup_t> s;
    W->in_loc(o.loc->id, [&] {
        if (o.plain)
            s = apply_opts(c->create_supervisor<P>(), o);
        else
            s = apply_opts(c->create_supervisor<S>(), o);
    });
    if (s)
        W->keep.push_back(s);
    return s.get();
}
template <typename S = sup_t, typename P = sup_plain_t> sup_t *make_child_sup(sup_t &parent, const sup_opts_t &o) {
    W->next_name = o.name;
    W->next_tag = o.tag;
    W->next_parent = parent.m->id;
    r::intrusive_ptr_t<sup_t> s;
    if (o.plain)
        s = apply_opts(parent.create_actor<P>(), o);
    else
        s = apply_opts(parent.create_actor<S>(), o);
    if (s)
        W->keep.push_back(s);
    return s.get();
}
struct act_opts_t {
    uint64_t init_timeout = FAR, shutdown_timeout = FAR;
    bool escalate = false, autoshutdown = false;
    std::string name;
    int tag = 0;
    r::address_ptr_t spawner;
};
template <typename A = act_t> r::intrusive_ptr_t<A> make_actor(sup_t &parent, const act_opts_t &o = {}) {
    W->next_parent = parent.m->id;
    W->next_name = o.name;
    W->next_tag = o.tag;
    auto b = parent.create_actor<A>().init_timeout(us(o.init_timeout)).shutdown_timeout(us(o.shutdown_timeout));
    if (o.escalate)
        (void)std::move(b).escalate_failure();
    if (o.autoshutdown)
        (void)std::move(b).autoshutdown_supervisor();
    if (o.spawner)
        (void)std::move(b).spawner_address(o.spawner);
    return std::move(b).finish();
}

// whole-world checks at the end of a case
void check_nothing_left(const char *tag);

} // namespace sim
