// Random trees of actors and supervisors with init delays/failures, traffic and shutdowns (C01-C04, C14).
#pragma once
#include "sim.h"
#include <map>
#include <set>

namespace tree {
using namespace sim;

enum fail_t { OK, FAIL_ERR, FAIL_NORMAL, FAIL_TIMEOUT };

struct plan_t {
    bool sup = false, sync = false, plain = false, new_loc = false, escalate = false, autoshutdown = false;
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    uint64_t delay = 0; // init delay
    fail_t fail = OK;
    uint64_t fail_at = 0;
    uint64_t init_timeout = FAR;
    bool hold = false; // holds a resource at shutdown for a while
    uint64_t quit = 0; // shuts itself down that long after its start
    int links = 0;     // how many older nodes to link to
    std::vector<plan_t> kids;
    int id = -1; // monitor id of the created one
    // a spawner: the plans of its instances (the last one repeats)
    std::vector<plan_t> inst;
    uint64_t period = 0;
    size_t attempts = 0;
    r::restart_policy_t restart = r::restart_policy_t::always;
    int spawner = -1, inst_no = -1; // which instance of which spawner
};

struct gen_t { // what may be generated
    int max_nodes = 8, max_depth = 3;
    bool delays = true, failures = false, flags = false, multi_loc = true, holds = false, short_timeouts = false;
    bool links = false, spawners = false;
    uint32_t fail_pct = 25;
};

struct req_p {
    struct res_p {
        uint64_t v = 0;
    };
    using response_t = res_p;
    uint64_t v;
    req_p(uint64_t v_) : v{v_} {}
};
namespace msg {
using req = r::request_traits_t<req_p>::request::message_t;
using res = r::request_traits_t<req_p>::response::message_t;
} // namespace msg

struct node_i {
    virtual ~node_i() = default;
    virtual mon_t &mo() = 0;
    virtual r::actor_base_t &actor() = 0;
    virtual void op(bool inside) = 0;
    virtual void stop(int kind) = 0; // 0: plain do_shutdown(), 1: with an error, 2: with an explicit normal reason
    virtual sup_t *as_sup() = 0;
    plan_t plan;
    int64_t res_at = -1; // when the own initialization delay began
};

struct traffic_t {
    bool on = false;
    int budget = 0;           // how many operations handlers may still issue
    uint32_t w_stop = 3;      // weight of stopping somebody
    bool late_children = true;
};

struct sys_t {
    src_t &src;
    gen_t gen;
    traffic_t traffic;
    std::vector<node_i *> nodes;           // by monitor id, null when destroyed
    std::vector<r::address_ptr_t> addrs;   // by monitor id
    std::vector<int> roots;
    int created = 0;
    uint64_t seq = 0;
    struct spawner_t {
        int sup;
        uint64_t at; // when it was registered
        plan_t plan;
        std::vector<int> ids; // of the instances
    };
    std::deque<spawner_t> spawners;
    std::vector<int> stop_log; // ids stopped on purpose
    bool check_released = false; // actors which are shut down are destroyed
    bool repeated_stops = false;           // shutdowns are requested again and again
    std::function<void(node_i &)> on_created;
    explicit sys_t(src_t &s) : src{s} {}

    plan_t make_plan(int depth, int &budget);
    plan_t make_sup_plan(int depth, int &budget);
    node_i *make_root(const plan_t &p);
    void create(sup_t &parent, const plan_t &p);
    void spawn(sup_t &parent, const plan_t &p);
    node_i *random_live();
    bool late_child();
    void external_op();
};
inline sys_t *S = nullptr;
inline const plan_t *NEXT_PLAN = nullptr; // plan of the next created node

template <typename Base> struct mix_t : Base, node_i {
    struct held_t {
        r::request_id_t timer;
    };
    std::vector<r::request_id_t> timers, hold_timers;
    std::vector<r::intrusive_ptr_t<msg::req>> pending;
    std::map<int, int> subs; // address -> 0/1 subscribed to M1
    bool init_held = false;
    uint64_t cb = 0;

    template <typename C> explicit mix_t(C &cfg) : Base(cfg) {
        if ((int)S->nodes.size() <= Base::m->id) {
            S->nodes.resize(Base::m->id + 1);
            S->addrs.resize(Base::m->id + 1);
        }
        S->nodes[Base::m->id] = this;
        plan = *NEXT_PLAN;
        plan.id = Base::m->id;
    }
    ~mix_t() {
        if (S)
            S->nodes[Base::m->id] = nullptr;
    }
    mon_t &mo() override { return *Base::m; }
    r::actor_base_t &actor() override { return *this; }
    sup_t *as_sup() override {
        if constexpr (std::is_base_of_v<sup_t, Base>)
            return this;
        else
            return nullptr;
    }
    bool up() { return Base::m->operational(); }
    void alive_check(const char *what) {
        EXPECT(!Base::m->down_done, "after-shutdown", "%s: %s runs after the shutdown was finished", Base::m->name.c_str(), what);
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            pl.subscribe_actor(&mix_t::on_chat);
            pl.subscribe_actor(&mix_t::on_req);
            pl.subscribe_actor(&mix_t::on_res);
        });
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &) { S->addrs[Base::m->id] = Base::address; });
        p.with_casted<r::plugin::child_manager_plugin_t>([&](auto &) {
            if constexpr (std::is_base_of_v<sup_t, Base>)
                for (auto &k : plan.kids)
                    k.inst.empty() ? S->create(*this, k) : S->spawn(*this, k);
        });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &pl) {
            std::set<int> targets;
            for (int i = 0; i < plan.links; ++i) {
                // to older nodes of other branches only, i.e. no cycles
                auto t = (int)W->src.draw((uint32_t)Base::m->id);
                if (!is_ancestor(t) && S->addrs[t])
                    targets.insert(t);
            }
            for (auto t : targets) {
                eng::trace("  %s links to %s", Base::m->name.c_str(), W->mon(t).name.c_str());
                pl.link(S->addrs[t], false);
            }
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
            res_at = (int64_t)W->now;
            if (plan.delay || plan.fail != OK) {
                Base::resources->acquire(0);
                init_held = true;
                if (plan.fail == OK)
                    hold_timers.push_back(Base::start_timer(us(plan.delay), *this, &mix_t::on_init_timer));
                else if (plan.fail != FAIL_TIMEOUT)
                    hold_timers.push_back(Base::start_timer(us(plan.fail_at), *this, &mix_t::on_init_timer));
            }
        });
    }
    bool is_ancestor(int t) {
        for (int i = Base::m->id; i >= 0; i = W->mon(i).parent)
            if (i == t)
                return true;
        return false;
    }
    void on_init_timer(r::request_id_t id, bool cancelled) noexcept {
        alive_check("init timer");
        forget(hold_timers, id);
        if (cancelled)
            return;
        if (plan.fail == OK) {
            if (init_held) {
                init_held = false;
                Base::resources->release(0);
            }
        } else if (!Base::m->stopping())
            stop(plan.fail == FAIL_ERR ? 1 : 0);
    }
    void on_start() noexcept override {
        Base::on_start();
        if (plan.quit)
            hold_timers.push_back(Base::start_timer(us(plan.quit), *this, &mix_t::on_quit_timer));
    }
    void on_quit_timer(r::request_id_t id, bool cancelled) noexcept {
        alive_check("timer");
        forget(hold_timers, id);
        if (!cancelled)
            stop(0);
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        if (plan.hold && S->gen.holds) {
            Base::resources->acquire(1);
            hold_timers.push_back(Base::start_timer(us(S->src.range(1, 30) * MS), *this, &mix_t::on_hold_timer));
        }
        if (init_held) {
            init_held = false;
            Base::resources->release(0); // the initialization is given up
        }
    }
    void on_hold_timer(r::request_id_t id, bool cancelled) noexcept {
        alive_check("timer");
        forget(hold_timers, id);
        EXPECT(!cancelled, "early-finish", "%s: shutdown finished while a resource was held", Base::m->name.c_str());
        Base::resources->release(1);
    }
    void shutdown_finish() noexcept override {
        pending.clear();
        Base::shutdown_finish();
    }
    void forget(std::vector<r::request_id_t> &v, r::request_id_t id) {
        auto it = std::find(v.begin(), v.end(), id);
        EXPECT(it != v.end(), "timer", "%s: callback for a timer that is not outstanding", Base::m->name.c_str());
        v.erase(it);
    }
    void react() {
        if (S->traffic.on && S->traffic.budget > 0) {
            --S->traffic.budget;
            auto k = S->src.draw(3);
            while (k--)
                op(true);
        }
    }
    void on_chat(msg_t<0> &m) noexcept {
        alive_check("message handler");
        EXPECT(m.payload.intact(), "payload", "corrupted payload");
        eng::count("messages handled");
        react();
    }
    void on_news(msg_t<1> &m) noexcept {
        alive_check("subscription handler");
        EXPECT(m.payload.intact(), "payload", "corrupted payload");
        eng::count("published messages handled");
        react();
    }
    void on_req(msg::req &m) noexcept {
        alive_check("request handler");
        eng::count("requests handled");
        switch (S->src.draw(4)) {
        case 0:
            Base::reply_to(m, m.payload.request_payload.v);
            break;
        case 1:
            Base::reply_with_error(m, Base::make_error(std::make_error_code(std::errc::io_error)));
            break;
        case 2:
            if (!Base::m->stopping())
                pending.emplace_back(&m);
            break;
        default:
            break;
        }
        react();
    }
    void on_res(msg::res &m) noexcept {
        alive_check("response handler");
        EXPECT(m.payload.req, "response", "no request in the response");
        eng::count("responses handled");
        react();
    }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        alive_check("timer callback");
        forget(timers, id);
        eng::count(cancelled ? "timers cancelled" : "timers fired");
        if (!cancelled)
            react();
    }
    void stop(int kind) override {
        if (Base::m->stopping() && !S->repeated_stops)
            return;
        S->stop_log.push_back(Base::m->id);
        eng::trace("  stop %s (%d)", Base::m->name.c_str(), kind);
        if (kind == 0)
            Base::do_shutdown();
        else if (kind == 1)
            Base::do_shutdown(Base::make_error(std::make_error_code(std::errc::io_error)));
        else
            Base::do_shutdown(Base::make_error(r::make_error_code(r::shutdown_code_t::normal)));
    }
    void op(bool inside) override {
        auto &src = S->src;
        bool may = up() || (inside && Base::m->phase() >= 1 && Base::m->phase() <= 3);
        if (!may)
            return;
        auto target = (int)src.draw((uint32_t)S->nodes.size());
        if (!S->addrs[target])
            return;
        auto addr = S->addrs[target];
        switch (src.weighted({25, 20, 15, 6, 12, 6, S->traffic.w_stop, S->traffic.late_children ? 4u : 0u})) {
        case 0:
            eng::trace("  %s -> chat %s", Base::m->name.c_str(), W->mon(target).name.c_str());
            Base::template send<payload_t<0>>(addr, ++S->seq);
            break;
        case 1: {
            eng::trace("  %s -> request %s", Base::m->name.c_str(), W->mon(target).name.c_str());
            auto t = src.range(1, 40) * MS;
            Base::template request<req_p>(addr, ++S->seq).send(us(t));
            break;
        }
        case 2:
            timers.push_back(Base::start_timer(us(src.range(0, 40) * MS), *this, &mix_t::on_timer));
            break;
        case 3:
            if (!timers.empty())
                Base::cancel_timer(src.pick(timers));
            break;
        case 4: // subscription to (possibly foreign) address
            if (!up())
                break;
            if (!subs[target]) {
                if (W->mon(target).stopping() || !W->mon(target).ptr)
                    break;
                // the owner of the address has to be alive to confirm the subscription
                auto &owner = address_owner(addr);
                if (owner.m->stopping())
                    break;
                subs[target] = 1;
                eng::trace("  %s subscribes on %s", Base::m->name.c_str(), W->mon(target).name.c_str());
                Base::subscribe(&mix_t::on_news, addr);
            } else
                Base::template send<payload_t<1>>(addr, ++S->seq);
            break;
        case 5:
            if (!pending.empty()) {
                auto m = pending.back();
                pending.pop_back();
                Base::reply_to(*m, (uint64_t)1);
            }
            break;
        case 6: {
            auto *n = S->nodes[target];
            if (n && n->mo().loc == Base::m->loc && !n->mo().stopping() && n->mo().phase() >= 1)
                n->stop((int)src.draw(3));
            break;
        }
        case 7:
            S->late_child();
            break;
        }
    }
    static sup_t &address_owner(const r::address_ptr_t &a) { return static_cast<sup_t &>(a->supervisor); }
};

using anode_t = mix_t<act_t>;
using snode_t = mix_t<sup_t>;
using spnode_t = mix_t<sup_plain_t>;

inline plan_t sys_t::make_plan(int depth, int &budget) {
    --budget;
    plan_t p;
    if (gen.spawners && depth > 0 && src.chance(20)) {
        gen_t old = gen;
        gen.spawners = false;
        gen.max_depth = 0;
        int n = (int)src.range(1, 3);
        for (int i = 0; i < n; ++i) {
            int b = 1;
            auto k = make_plan(0, b);
            if (k.fail == OK && src.chance(70))
                k.quit = src.range(1, 60) * MS + 11;
            p.inst.push_back(k);
        }
        gen = old;
        p.period = src.chance(30) ? 0 : src.range(1, 60) * MS;
        p.attempts = src.range(1, 4);
        p.restart = (r::restart_policy_t)src.draw(5);
        return p;
    }
    p.sup = depth < gen.max_depth && src.chance(35);
    if (gen.delays && src.chance(50))
        p.delay = src.range(1, 50) * MS;
    if (gen.failures && src.chance(gen.fail_pct)) {
        p.fail = (fail_t)src.range(FAIL_ERR, FAIL_TIMEOUT);
        p.fail_at = src.range(1, 50) * MS + 7;
    }
    // never a tie with a delay
    if (gen.short_timeouts && src.chance(30))
        p.init_timeout = src.range(1, 60) * MS + 501 + src.draw(90);
    else if (p.fail == FAIL_TIMEOUT)
        p.init_timeout = src.range(1, 60) * MS + 601 + src.draw(90);
    if (gen.flags) {
        p.escalate = src.chance(30);
        p.autoshutdown = src.chance(20);
    }
    if (gen.holds)
        p.hold = src.chance(25);
    if (gen.links)
        p.links = (int)src.weighted({60, 25, 15});
    if (p.sup) {
        p.sync = src.chance(30);
        p.plain = src.chance(50);
        p.new_loc = gen.multi_loc && src.chance(40);
        p.policy = src.chance(50) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        int n = (int)src.range(0, 3);
        for (int i = 0; i < n && budget > 0; ++i)
            p.kids.push_back(make_plan(depth + 1, budget));
    }
    return p;
}
inline plan_t sys_t::make_sup_plan(int depth, int &budget) {
    --budget;
    plan_t p;
    p.sup = true;
    p.sync = src.chance(30);
    p.plain = src.chance(50);
    p.policy = src.chance(50) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
    if (gen.holds)
        p.hold = src.chance(25);
    if (gen.delays && src.chance(25))
        p.delay = src.range(1, 50) * MS;
    if (gen.failures && src.chance(10)) {
        p.fail = (fail_t)src.range(FAIL_ERR, FAIL_TIMEOUT);
        p.fail_at = src.range(1, 50) * MS + 7;
    }
    if (p.fail == FAIL_TIMEOUT || (gen.short_timeouts && src.chance(15)))
        p.init_timeout = src.range(1, 60) * MS + 601 + src.draw(90);
    int n = (int)src.range(1, 4);
    for (int i = 0; i < n && budget > 0; ++i)
        p.kids.push_back(make_plan(depth + 1, budget));
    return p;
}
inline sup_opts_t sup_opts(const plan_t &p, loc_t *loc) {
    sup_opts_t o;
    o.loc = loc;
    o.policy = p.policy;
    o.sync = p.sync;
    o.plain = p.plain;
    o.escalate = p.escalate;
    o.autoshutdown = p.autoshutdown;
    o.init_timeout = p.init_timeout;
    return o;
}
inline node_i *sys_t::make_root(const plan_t &p) {
    NEXT_PLAN = &p;
    auto *s = sim::make_root<snode_t, spnode_t>(sup_opts(p, W->new_loc()));
    ++created;
    roots.push_back(s->m->id);
    return nodes[s->m->id];
}
inline void sys_t::create(sup_t &parent, const plan_t &p) {
    // the plan has to be in place before the actor gets initialized
    auto cp = p;
    NEXT_PLAN = &cp;
    ++created;
    if (p.sup)
        make_child_sup<snode_t, spnode_t>(parent, sup_opts(p, p.new_loc ? W->new_loc() : parent.loc));
    else {
        act_opts_t o;
        o.init_timeout = p.init_timeout;
        o.escalate = p.escalate;
        o.autoshutdown = p.autoshutdown;
        make_actor<anode_t>(parent, o);
    }
}
inline void sys_t::spawn(sup_t &parent, const plan_t &p) {
    auto idx = (int)spawners.size();
    spawners.push_back({parent.m->id, W->now, p, {}});
    auto factory = [idx](r::supervisor_t &sup, const r::address_ptr_t &spawner) -> r::actor_ptr_t {
        auto &sp = S->spawners[idx];
        auto n = sp.ids.size();
        auto cp = sp.plan.inst[std::min(n, sp.plan.inst.size() - 1)];
        cp.spawner = idx;
        cp.inst_no = (int)n;
        NEXT_PLAN = &cp;
        act_opts_t o;
        o.init_timeout = cp.init_timeout;
        o.escalate = cp.escalate;
        o.autoshutdown = cp.autoshutdown;
        o.spawner = spawner;
        auto &s = static_cast<sup_t &>(sup);
        EXPECT(s.m->phase() < 4, "spawn", "%s spawns an actor while it is going down", s.m->name.c_str());
        sp.ids.push_back((int)W->mons.size()); // before the actor gets initialized
        auto a = make_actor<anode_t>(s, o);
        eng::count("spawned instances");
        if (n)
            eng::label("respawned");
        return a;
    };
    parent.spawn(factory).max_attempts(p.attempts).restart_period(us(p.period)).restart_policy(p.restart).escalate_failure(p.escalate).spawn();
}
inline node_i *sys_t::random_live() {
    std::vector<node_i *> l;
    for (auto *n : nodes)
        if (n && n->mo().operational())
            l.push_back(n);
    return l.empty() ? nullptr : src.pick(l);
}
inline bool sys_t::late_child() {
    if (created >= gen.max_nodes + 6)
        return false;
    std::vector<node_i *> l;
    for (auto *n : nodes)
        if (n && n->as_sup() && n->mo().phase() >= 1 && n->mo().phase() <= 3 && (W->cur_loc == -1 || n->mo().loc == W->cur_loc))
            l.push_back(n);
    if (l.empty())
        return false;
    auto *n = src.pick(l);
    int budget = 1;
    auto p = make_plan(gen.max_depth - 1, budget);
    eng::trace("  a new child for %s", n->mo().name.c_str());
    eng::label("child created later");
    W->in_loc(n->mo().loc, [&] { p.inst.empty() ? create(*n->as_sup(), p) : spawn(*n->as_sup(), p); });
    return true;
}
inline void sys_t::external_op() {
    auto *n = random_live();
    if (n)
        W->in_loc(n->mo().loc, [&] { n->op(false); });
}

// a random life of a random tree, which ends with the shutdown of everything
struct chaos_t {
    unsigned in_flight = 0;
    int busy = 0, alive = 0;
};
constexpr uint64_t LIMIT = 500 * SEC; // far more than any delay, far less than the shutdown timeouts

inline chaos_t chaos(sys_t &sys) {
    auto &w = *W;
    auto &src = sys.src;
    chaos_t res;
    int budget = sys.gen.max_nodes;
    int nroots = src.chance(30) ? 2 : 1;
    for (int i = 0; i < nroots; ++i) {
        auto p = sys.make_sup_plan(0, budget);
        sys.make_root(p);
    }
    int steps = (int)src.range(0, 80);
    for (int i = 0; i < steps; ++i) {
        if (sys.traffic.on && src.chance(35))
            sys.external_op();
        else if (!w.step(LIMIT))
            sys.external_op();
    }
    for (auto *n : sys.nodes)
        if (n) {
            ++res.alive;
            res.busy += n->mo().phase() < 3;
        }
    // a subtree first
    if (src.chance(40)) {
        std::vector<int> c;
        for (auto *n : sys.nodes)
            if (n && !n->mo().stopping() && n->mo().phase() >= 1)
                c.push_back(n->mo().id);
        if (!c.empty()) {
            auto t = src.pick(c);
            eng::trace("-- stop the subtree of %s", w.mon(t).name.c_str());
            w.in_loc(w.mon(t).loc, [&] { sys.nodes[t]->stop((int)src.draw(3)); });
            eng::label("a subtree is stopped first");
            if (src.chance(50))
                w.settle(LIMIT);
            else
                for (int i = (int)src.range(0, 30); i > 0; --i)
                    w.step(LIMIT);
            if (!w.any_work() && (w.earliest() == w.timers.end() || w.earliest()->deadline > LIMIT))
            {
                EXPECT(w.mon(t).down(), "hang", "%s does not complete its shutdown", w.mon(t).name.c_str());
                if (sys.check_released)
                    for (auto &m : w.mons)
                        EXPECT(!m->down_done || m->sup || !m->ptr, "not-released",
                               "%s is shut down, nothing is on the way, but it is not destroyed", m->name.c_str());
            }
        }
    }
    for (auto &l : w.locs)
        res.in_flight += l->inbound.size() + (l->leader ? l->leader->queue_len() : 0);
    for (auto id : sys.roots)
        if (!w.mon(id).stopping()) {
            eng::trace("-- stop root %s", w.mon(id).name.c_str());
            if (src.chance(20)) // the thread-safe way
                sys.nodes[id]->as_sup()->shutdown();
            else
                w.in_loc(w.mon(id).loc, [&] { sys.nodes[id]->stop((int)src.draw(3)); });
        }
    // traffic goes on meanwhile
    int more = (int)src.range(0, 40);
    for (int i = 0; i < more; ++i) {
        if (src.chance(35))
            sys.external_op();
        else if (!w.step(LIMIT))
            break;
    }
    sys.traffic.on = false;
    w.settle(LIMIT);
    if (res.in_flight)
        eng::label("shutdown with messages in flight");
    if (res.busy)
        eng::label("shutdown during initialization");
    if (w.locs.size() > 1)
        eng::label("several localities");
    eng::count("actors", w.mons.size());
    return res;
}
inline void chaos_options(sys_t &sys) {
    auto &src = sys.src;
    sys.gen.max_nodes = (int)src.range(3, eng::thorough() ? 14 : 10);
    sys.gen.failures = src.chance(30);
    sys.gen.short_timeouts = src.chance(30);
    sys.gen.flags = src.chance(30);
    sys.gen.holds = src.chance(40);
    sys.gen.links = src.chance(40);
    sys.gen.spawners = src.chance(40);
    sys.traffic.on = src.chance(80);
    sys.traffic.budget = (int)src.range(0, 60);
    sys.traffic.w_stop = (uint32_t)src.range(0, 6);
    sys.repeated_stops = src.chance(20);
}

} // namespace tree
