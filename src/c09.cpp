// C09: every started timer calls back exactly once: fired or cancelled
#include "sim.h"
#include <map>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;

struct req_p {
    struct res_p {};
    using response_t = res_p;
};
using req_m = r::request_traits_t<req_p>::request::message_t;
using res_m = r::request_traits_t<req_p>::response::message_t;

struct node_i;
struct rec_t {
    uint64_t no;
    r::request_id_t id;
    int node, loc;
    uint64_t deadline;
    int calls = 0;
    bool in_cancel = false;
    uint64_t started_at; // position in the list of fired timers
};
struct net_t {
    std::vector<node_i *> nodes;
    std::vector<mon_t *> mons;
    std::vector<std::unique_ptr<rec_t>> recs;
    std::vector<r::address_ptr_t> addrs;
    std::map<std::pair<int, r::request_id_t>, rec_t *> live; // outstanding ones by locality and id
    int budget = 0;
    uint64_t fired = 0, cancelled = 0, swept = 0, nested = 0, requests = 0;
};
net_t *N;

struct peek_sup_t : r::supervisor_t {
    static size_t has_request(r::supervisor_t &s, r::request_id_t id) { return static_cast<peek_sup_t &>(s).request_map.count(id); }
};

struct node_i {
    mon_t *mo = nullptr;
    int idx = -1;
    int depth = 0; // nesting of callbacks
    virtual ~node_i() = default;
    virtual void act() = 0;
    virtual void some(int max) = 0;
    virtual r::actor_base_t &actor() = 0;
    virtual void called(r::request_id_t id, bool cancelled, int how) = 0;
};
// not an actor
struct helper_t {
    node_i *node;
    void on_timer(r::request_id_t id, bool cancelled) noexcept { node->called(id, cancelled, 2); }
};

template <typename Base> struct node_t : Base, node_i {
    helper_t helper{this};
    template <typename C> explicit node_t(C &c) : Base(c) {
        mo = Base::m;
        idx = (int)N->nodes.size();
        N->nodes.push_back(this);
        N->mons.push_back(mo);
    }
    ~node_t() {
        if (N)
            N->nodes[idx] = nullptr;
    }
    r::actor_base_t &actor() override { return *this; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            pl.subscribe_actor(&node_t::on_req);
            pl.subscribe_actor(&node_t::on_res);
            pl.subscribe_actor(&node_t::on_msg);
            N->addrs.push_back(Base::address);
        });
    }
    void on_msg(msg_t<0> &) noexcept { some(2); }
    void on_req(req_m &m) noexcept {
        if (W->src.chance(50))
            Base::reply_to(m);
        some(1);
    }
    void on_res(res_m &) noexcept { some(1); }
    void on_start() noexcept override {
        Base::on_start();
        some(2);
    }
    void init_start() noexcept override {
        Base::init_start();
        if (!Base::m->sup) // (the locality of a supervisor is not known yet)
            some(1);
    }
    void shutdown_start() noexcept override {
        some(2);
        Base::shutdown_start();
        some(2);
    }
    void shutdown_finish() noexcept override {
        some(2);
        Base::shutdown_finish();
    }
    void on_timer_a(r::request_id_t id, bool cancelled) noexcept { called(id, cancelled, 0); }
    void on_timer_b(r::request_id_t id, bool cancelled) noexcept { called(id, cancelled, 1); }

    void called(r::request_id_t id, bool cancelled, int how) override {
        auto *name = Base::m->name.c_str();
        EXPECT(N, "too-late", "timer callback after everything is gone");
        EXPECT(!Base::m->down_done, "dead-actor", "a timer callback of shut down %s", name);
        EXPECT(W->cur_loc == Base::m->loc, "wrong-locality", "a timer callback of locality %d in locality %d", Base::m->loc, W->cur_loc);
        auto it = N->live.find({Base::m->loc, id});
        EXPECT(it != N->live.end(), "unknown", "%s: callback for timer %llu which is not outstanding", name, (unsigned long long)id);
        auto &t = *it->second;
        EXPECT(t.node == idx, "unknown", "%s: callback for timer %llu of another actor", name, (unsigned long long)id);
        EXPECT((int)(t.no % 3) == how, "callback", "timer %llu calls another callback", (unsigned long long)id);
        EXPECT(++t.calls == 1, "duplicate", "timer %llu calls back %d times", (unsigned long long)id, t.calls);
        N->live.erase(it);
        bool fired = false;
        for (size_t i = t.started_at; i < W->fired.size(); ++i)
            fired |= W->fired[i] == std::make_pair(id, t.loc);
        eng::trace("  [loc %d] %s: timer %llu calls back, cancelled: %d", W->cur_loc, name, (unsigned long long)id, cancelled);
        if (cancelled) {
            EXPECT(!fired, "flag", "timer %llu has the cancelled flag, but it expired", (unsigned long long)id);
            EXPECT(t.in_cancel || Base::m->n[H_SHUTDOWN_FINISH], "flag", "timer %llu is cancelled by nobody", (unsigned long long)id);
            t.in_cancel ? ++N->cancelled : ++N->swept;
        } else {
            EXPECT(fired && W->now >= t.deadline, "flag", "timer %llu has not the cancelled flag, but it did not expire", (unsigned long long)id);
            ++N->fired;
        }
        if (depth < 4) {
            ++depth;
            if (W->src.chance(45)) {
                ++N->nested;
                some(3);
            }
            --depth;
        }
    }
    void some(int max) override {
        if (!N)
            return;
        auto n = W->src.range(0, max);
        while (n--)
            act();
    }
    void begin() {
        auto rec = std::make_unique<rec_t>();
        auto &t = *rec;
        t.no = N->recs.size();
        t.node = idx;
        t.loc = Base::m->loc;
        uint64_t iv = W->src.chance(15) ? FAR * 5 : (uint64_t)W->src.range(0, 10) * MS;
        t.deadline = W->now + iv;
        t.started_at = W->fired.size();
        auto how = t.no % 3;
        t.id = how == 0   ? Base::start_timer(us(iv), *this, &node_t::on_timer_a)
               : how == 1 ? Base::start_timer(us(iv), *this, &node_t::on_timer_b)
                          : Base::start_timer(us(iv), helper, &helper_t::on_timer);
        eng::trace("  [loc %d] %s starts timer %llu (%llu us)", W->cur_loc, Base::m->name.c_str(), (unsigned long long)t.id, (unsigned long long)iv);
        EXPECT(N->live.emplace(std::make_pair(t.loc, t.id), &t).second, "id", "%s: the id %llu is in use by another timer",
               Base::m->name.c_str(), (unsigned long long)t.id);
        for (auto &k : W->keep)
            if (k->loc->id == t.loc)
                EXPECT(!peek_sup_t::has_request(*k, t.id), "id", "%s: the timer id %llu is in use by a request", Base::m->name.c_str(),
                       (unsigned long long)t.id);
        EXPECT(!t.calls, "too-early", "called back while being started");
        N->recs.push_back(std::move(rec));
    }
    void drop() {
        std::vector<rec_t *> l;
        for (auto &x : N->live)
            if (x.second->node == idx && !x.second->in_cancel)
                l.push_back(x.second);
        if (l.empty())
            return;
        auto &t = *W->src.pick(l);
        eng::trace("  [loc %d] %s cancels timer %llu", W->cur_loc, Base::m->name.c_str(), (unsigned long long)t.id);
        t.in_cancel = true;
        Base::cancel_timer(t.id);
        EXPECT(t.calls == 1, "not-called", "timer %llu is cancelled without a callback", (unsigned long long)t.id);
    }
    void act() override {
        if (!N || N->budget <= 0 || Base::m->down_done)
            return;
        --N->budget;
        switch (W->src.weighted({50, 30, 10, 10, depth ? 0u : 3u})) {
        case 0:
            return begin();
        case 1:
            return drop();
        case 2: {
            if (Base::m->n[H_SHUTDOWN_FINISH] || N->addrs.empty() || Base::m->n[H_INIT_START] == 0 || !Base::m->operational())
                return;
            auto id = Base::template request<req_p>(W->src.pick(N->addrs)).send(us((uint64_t)W->src.range(0, 10) * MS));
            ++N->requests;
            EXPECT(!N->live.count({Base::m->loc, id}), "id", "%s: the request id %llu is in use by a timer", Base::m->name.c_str(),
                   (unsigned long long)id);
            return;
        }
        case 3:
            if (!N->addrs.empty() && !Base::m->n[H_SHUTDOWN_FINISH])
                Base::template send<payload_t<0>>(W->src.pick(N->addrs), 0ul);
            return;
        default:
            if (Base::m->operational()) {
                eng::trace("  [loc %d] %s shuts down", W->cur_loc, Base::m->name.c_str());
                eng::label("shut down with timers");
                Base::do_shutdown();
            }
        }
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

void no_stale() {
    for (auto &x : N->live) {
        auto &t = *x.second;
        EXPECT(!N->mons[t.node]->down_done, "left", "timer %llu is left after the shutdown of %s", (unsigned long long)t.id,
               N->mons[t.node]->name.c_str());
        bool pending = false;
        for (auto &p : W->timers)
            pending |= p.id == t.id && p.sup->loc->id == t.loc;
        EXPECT(pending, "lost", "timer %llu of %s is neither pending nor called back", (unsigned long long)t.id, N->mons[t.node]->name.c_str());
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    n.budget = (int)src.range(3, eng::thorough() ? 200 : 80);
    int nloc = (int)src.range(1, 2);
    std::vector<sup_t *> sups;
    for (int i = 0; i < nloc; ++i) {
        sup_opts_t o;
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        if (i == 0 || src.chance(50))
            sups.push_back(make_root<snode_t, spnode_t>(o));
        else
            sups.push_back(make_child_sup<snode_t, spnode_t>(*src.pick(sups), o));
        if (src.chance(40))
            sups.push_back(make_child_sup<snode_t, spnode_t>(*sups.back(), o));
    }
    int na = (int)src.range(1, 3);
    for (int i = 0; i < na; ++i)
        make_actor<anode_t>(*src.pick(sups));
    int steps = (int)src.range(5, 120);
    for (int i = 0; i < steps && n.budget > 0; ++i) {
        auto k = src.weighted({60, 40});
        if (k == 0 && w.step(w.now + 10 * MS)) {
            no_stale();
            continue;
        }
        std::vector<node_i *> l;
        for (auto *x : n.nodes)
            if (x && x->mo->operational())
                l.push_back(x);
        if (l.empty())
            continue;
        auto *x = src.pick(l);
        w.in_loc(x->mo->loc, [&] { x->some(3); });
        no_stale();
    }
    if (src.chance(50)) {
        w.settle(w.now + LIMIT);
        no_stale();
        for (auto &x : n.live)
            EXPECT(x.second->deadline > w.now, "not-called", "timer %llu expired without a callback", (unsigned long long)x.second->id);
    }
    for (auto &k : w.keep)
        if (k->m->parent < 0 && !k->m->stopping())
            w.in_loc(k->loc->id, [&] { k->do_shutdown(); });
    w.settle(w.now + LIMIT);
    for (auto &m : w.mons)
        EXPECT(m->down(), "shutdown", "%s does not shut down", m->name.c_str());
    for (auto &t : n.recs)
        EXPECT(t->calls == 1, "not-called", "timer %llu never called back", (unsigned long long)t->id);
    EXPECT(n.live.empty(), "left", "timers are left");
    eng::count("timers", n.recs.size());
    eng::count("fired", n.fired);
    eng::count("cancelled", n.cancelled);
    eng::count("cancelled by the shutdown", n.swept);
    eng::count("callbacks with operations inside", n.nested);
    eng::count("requests", n.requests);
    if (n.fired && n.cancelled && n.swept)
        eng::nontrivial();
    n.addrs.clear();
    N = nullptr;
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C09",
    "2-7 actors and supervisors start and cancel timers (three callbacks, one of a non-actor) from message handlers, lifecycle hooks, "
    "timer callbacks (fired and cancelled, nested) and from outside, mixed with requests and shutdowns, under a virtual clock; "
    "non-trivial: at least one timer fired, one was cancelled, and one was cancelled by a shutdown",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
