// C10: linked servers outlive their clients' use of them; unlinking cascades leaf-first
#include "sim.h"
#include <map>
#include <set>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;

struct node_i;
struct link_t {
    int client, server;
    bool op_only, init;
    uint64_t ev;
    bool late;                       // the server was stopping already
    uint64_t reached = NEVER;        // the request is delivered
    uint64_t ok = NEVER, failed = NEVER, told = NEVER, gone = NEVER; // gone: the server has seen that the client let it go
    bool declined = false, deferred = false;
    int tolds = 0;
    bool current() const { return ok != NEVER && gone == NEVER && !declined; }
};
struct plan_t {
    bool sup = false, new_loc = false;
    uint64_t init_timeout = FAR, delay = 0;
    uint32_t decline_pct = 0, defer_pct = 0;
    int links = 0, own_links = 0;
};
struct net_t {
    std::vector<node_i *> nodes;
    std::vector<mon_t *> mons;
    std::vector<plan_t> plans;
    std::vector<r::address_ptr_t> addrs;
    std::map<r::address_t *, int> index;
    std::vector<std::unique_ptr<link_t>> links;
    std::set<int> cause; // nodes which have a reason to shut down
    bool ending = false;
    int budget = 0;
    uint64_t ev() { return ++W->ev_no; }
    int node_of(const r::address_ptr_t &a) {
        auto it = index.find(a.get());
        return it == index.end() ? -1 : it->second;
    }
    bool has_cause(int i);
    uint64_t listens_at(int i);
    bool ancestor(int a, int b); // a is b or above it
    link_t *find(int client, int server) {
        link_t *f = nullptr;
        for (auto &l : links)
            if (l->client == client && l->server == server)
                f = l.get();
        return f;
    }
};
net_t *N;
const plan_t *NEXT_PLAN;

struct node_i {
    mon_t *mo = nullptr;
    int idx = -1;
    uint64_t listens = NEVER; // subscribed to the messages of the links
    virtual ~node_i() = default;
    virtual r::actor_base_t &actor() = 0;
    virtual void link_to(int server, bool op_only) = 0;
    virtual sup_t *as_sup() = 0;
};

uint64_t net_t::listens_at(int i) { return nodes[i] ? nodes[i]->listens : NEVER; }
bool net_t::ancestor(int a, int b) {
    for (int m = mons[b]->id; m >= 0; m = W->mon(m).parent)
        if (m == mons[a]->id)
            return true;
    return false;
}
bool net_t::has_cause(int i) {
    for (int m = mons[i]->id; m >= 0; m = W->mon(m).parent)
        for (size_t k = 0; k < mons.size(); ++k)
            if (mons[k]->id == m && (cause.count((int)k) || (m != mons[i]->id && mons[k]->stopping())))
                return true;
    return false;
}

template <typename Base> struct node_t : Base, node_i {
    plan_t plan;
    r::plugin::link_client_plugin_t *client = nullptr;
    std::vector<std::pair<r::request_id_t, r::intrusive_ptr_t<r::message::unlink_request_t>>> deferred;
    bool held = false;
    template <typename C> explicit node_t(C &c) : Base(c), plan{*NEXT_PLAN} {
        mo = Base::m;
        idx = (int)N->nodes.size();
        N->nodes.push_back(this);
        N->mons.push_back(mo);
        N->plans.push_back(plan);
        N->addrs.emplace_back();
    }
    ~node_t() {
        if (N)
            N->nodes[idx] = nullptr;
    }
    r::actor_base_t &actor() override { return *this; }
    sup_t *as_sup() override {
        if constexpr (std::is_base_of_v<sup_t, Base>)
            return this;
        else
            return nullptr;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &) {
            N->addrs[idx] = Base::address;
            N->index[Base::address.get()] = idx;
        });
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &pl) {
            client = &pl;
            Base::subscribe(&node_t::on_notify);
            Base::subscribe(&node_t::on_unlinked);
            Base::subscribe(&node_t::on_asked);
            listens = N->ev();
            if (plan.defer_pct)
                pl.on_unlink([this](r::message::unlink_request_t &m) { return defer(m); });
            for (int i = 0; i < plan.links; ++i)
                pick_link();
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
            if (plan.delay) {
                held = true;
                Base::resources->acquire();
                Base::start_timer(us(plan.delay), *this, &node_t::on_init_timer);
            }
        });
    }
    void on_init_timer(r::request_id_t, bool) noexcept { release(); }
    void release() {
        if (held) {
            held = false;
            Base::resources->release();
        }
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        release();
    }
    void shutdown_finish() noexcept override {
        deferred.clear();
        Base::shutdown_finish();
    }
    void pick_link() {
        if (idx == 0)
            return;
        int s = (int)W->src.draw((uint32_t)idx);
        bool op_only = W->src.chance(40);
        if (N->ancestor(s, idx))
            op_only = false; // would wait for itself
        link_to(s, op_only);
    }
    void link_to(int s, bool op_only) override {
        if (!N->addrs[s])
            return;
        auto *last = N->find(idx, s);
        if (last && last->failed == NEVER)
            return; // is linked (or asked already)
        auto l = std::make_unique<link_t>();
        auto *p = l.get();
        l->client = idx;
        l->server = s;
        l->op_only = op_only;
        l->init = !Base::m->initialized();
        l->ev = N->ev();
        l->late = N->mons[s]->stopping();
        if (l->late)
            eng::label("link to a server which is being shut down");
        N->links.push_back(std::move(l));
        eng::trace("  [loc %d] %s links to %s%s", W->cur_loc, Base::m->name.c_str(), N->mons[s]->name.c_str(), op_only ? " (operational only)" : "");
        auto name = Base::m->name;
        client->link(N->addrs[s], op_only, [p, name](const r::extended_error_ptr_t &ee) {
            if (!N)
                return;
            auto &srv = *N->mons[p->server];
            EXPECT(p->ok == NEVER && p->failed == NEVER, "callback", "%s: the link callback is invoked twice", name.c_str());
            eng::trace("  [loc %d] %s: link to %s %s", W->cur_loc, name.c_str(), srv.name.c_str(), ee ? "failed" : "is confirmed");
            if (ee) {
                p->failed = N->ev();
                if (p->init)
                    N->cause.insert(p->client);
                auto code = ee->root()->ec;
                if (code == r::make_error_code(r::error_code_t::actor_not_linkable)) {
                    eng::label("link refused");
                    EXPECT(srv.stopping(), "refused", "%s: %s refused the link while it is not shutting down", name.c_str(), srv.name.c_str());
                } else {
                    EXPECT(code == r::make_error_code(r::error_code_t::request_timeout), "refused", "%s: link failed with: %s", name.c_str(),
                           ee->message().c_str());
                    eng::label("link timed out");
                    EXPECT(p->reached == NEVER || N->plans[p->client].init_timeout != FAR, "unanswered", "%s: %s has not answered to the link request",
                           name.c_str(), srv.name.c_str());
                    EXPECT(W->now >= N->plans[p->client].init_timeout, "early-timeout", "%s: link timed out too early", name.c_str());
                }
                return;
            }
            p->ok = N->ev();
            EXPECT(!p->late, "linked-to-dead", "%s: linked to %s, which was shutting down before", name.c_str(), srv.name.c_str());
            EXPECT(!p->op_only || srv.n[H_ON_START], "not-operational", "%s: operational-only link is confirmed before %s is operational",
                   name.c_str(), srv.name.c_str());
            EXPECT(!srv.down(), "dead-server", "%s: link to %s is confirmed after its shutdown", name.c_str(), srv.name.c_str());
            if (p->op_only)
                eng::label("operational-only link");
        });
    }
    bool defer(r::message::unlink_request_t &m) {
        if (!N || N->ending || !W->src.chance(plan.defer_pct))
            return false;
        int s = N->node_of(m.payload.request_payload.server_addr);
        auto *l = N->find(idx, s);
        EXPECT(l && (l->ok != NEVER || l->failed != NEVER || Base::m->stopping()), "told", "%s is asked to unlink from a server it is not linked to",
               Base::m->name.c_str());
        l->deferred = true;
        l->told = N->ev();
        eng::label("unlink deferred");
        eng::trace("  [loc %d] %s defers unlinking from %s", W->cur_loc, Base::m->name.c_str(), N->mons[s]->name.c_str());
        auto id = Base::start_timer(us((uint64_t)W->src.range(0, 10) * MS), *this, &node_t::on_defer_timer);
        deferred.emplace_back(id, &m);
        return true;
    }
    void on_defer_timer(r::request_id_t id, bool cancelled) noexcept {
        for (auto it = deferred.begin(); it != deferred.end(); ++it)
            if (it->first == id) {
                auto m = it->second;
                deferred.erase(it);
                if (!cancelled) {
                    int s = N->node_of(m->payload.request_payload.server_addr);
                    N->find(idx, s)->deferred = false;
                    client->forget_link(*m);
                }
                return;
            }
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override {
        if (!N)
            return true;
        auto *name = Base::m->name.c_str();
        int s = N->node_of(a);
        auto *l = N->find(idx, s);
        EXPECT(l, "told", "%s is asked to unlink from a server it is not linked to", name);
        EXPECT(W->cur_loc == Base::m->loc, "wrong-locality", "on_unlink is called in another locality");
        EXPECT(++l->tolds == 1, "told-twice", "%s is asked twice to unlink from %s", name, N->mons[s]->name.c_str());
        EXPECT(N->mons[s]->stopping(), "told", "%s is asked to unlink from %s, which is not shutting down", name, N->mons[s]->name.c_str());
        l->told = N->ev();
        l->declined = W->src.chance(plan.decline_pct);
        eng::trace("  [loc %d] %s is asked to unlink from %s%s", W->cur_loc, name, N->mons[s]->name.c_str(), l->declined ? ", declines" : "");
        if (l->declined)
            eng::label("declined to shut down");
        else
            N->cause.insert(idx);
        bool leaf = true;
        for (auto &x : N->links)
            leaf &= !(x->server == idx && x->current());
        eng::label(leaf ? "leaf client unlinks" : "client with clients unlinks");
        return !l->declined;
    }
    // what servers get from the clients which let them go
    void let_go(const r::address_ptr_t &client_addr) {
        int c = N->node_of(client_addr);
        auto *l = c < 0 ? nullptr : N->find(c, idx);
        if (!l || l->gone != NEVER)
            return;
        l->gone = N->ev();
        auto &cm = *N->mons[c];
        eng::trace("  [loc %d] %s knows that %s let it go", W->cur_loc, Base::m->name.c_str(), cm.name.c_str());
        if (l->ok == NEVER || l->declined)
            return;
        EXPECT(l->told != NEVER || cm.stopping(), "let-go", "%s let %s go without being asked and without shutting down", cm.name.c_str(),
               Base::m->name.c_str());
        for (auto &x : N->links)
            if (x->server == c && x->ok != NEVER && !x->declined)
                EXPECT(x->gone != NEVER || x->ok < N->listens_at(c) || (l->told != NEVER && x->reached > l->told), "leaf-first", "%s let %s go while its own client %s still holds it", cm.name.c_str(),
                       Base::m->name.c_str(), N->mons[x->client]->name.c_str());
    }
    void on_asked(r::message::link_request_t &m) noexcept {
        if (!N)
            return;
        int c = N->node_of(m.payload.origin);
        auto *l = c < 0 ? nullptr : N->find(c, idx);
        if (l && l->reached == NEVER)
            l->reached = N->ev();
    }
    void on_notify(r::message::unlink_notify_t &m) noexcept {
        if (N)
            let_go(m.payload.client_addr);
    }
    void on_unlinked(r::message::unlink_response_t &m) noexcept {
        if (N && !m.payload.ee)
            let_go(m.payload.res.client_addr);
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

void hook(mon_t &m, hook_t h) {
    if (!N)
        return;
    int idx = -1;
    for (size_t i = 0; i < N->mons.size(); ++i)
        if (N->mons[i] == &m)
            idx = (int)i;
    if (idx < 0)
        return;
    if (h == H_INIT_FINISH) {
        for (auto &l : N->links)
            if (l->client == idx && l->init) {
                EXPECT(l->failed == NEVER, "init", "%s is initialized though its link to %s failed", m.name.c_str(), N->mons[l->server]->name.c_str());
                EXPECT(l->ok != NEVER, "init", "%s is initialized before its link to %s is confirmed", m.name.c_str(),
                       N->mons[l->server]->name.c_str());
            }
    } else if (h == H_SHUTDOWN_FINISH) {
        for (auto &l : N->links)
            if (l->server == idx && l->current()) {
                auto &c = *N->mons[l->client];
                EXPECT(l->told != NEVER || c.stopping(), "outlived",
                       "%s is shut down, its client %s is neither asked to unlink nor shutting down", m.name.c_str(), c.name.c_str());
                EXPECT(!l->deferred || c.stopping(), "outlived", "%s is shut down, its client %s has not finished the unlinking", m.name.c_str(),
                       c.name.c_str());
            }
    }
}

void settled() {
    for (size_t i = 0; i < N->mons.size(); ++i) {
        auto &m = *N->mons[i];
        EXPECT(!m.stopping() || m.down_done, "shutdown", "%s does not finish its shutdown", m.name.c_str());
        bool waits = false; // till the timeout of a link request
        for (auto &l : N->links)
            if (l->client == (int)i && l->init && l->ok == NEVER && l->failed == NEVER) {
                auto ph = N->mons[l->server]->phase();
                if (l->reached == NEVER && N->mons[l->server]->stopping())
                    waits = true;
                else if (l->op_only && (ph == 1 || ph == 2))
                    waits = true;
            }
        if (waits)
            eng::label("request to a dead server");
        EXPECT(waits || (m.phase() != 1 && m.phase() != 2), "stuck", "%s does not become operational", m.name.c_str());
        EXPECT(!m.stopping() || N->has_cause((int)i) || m.t_at[H_SHUTDOWN_START] >= N->plans[i].init_timeout, "no-cause",
               "%s is shut down for no reason: %s", m.name.c_str(), m.reason ? m.reason->message().c_str() : "");
    }
    for (auto &l : N->links) {
        auto &c = *N->mons[l->client];
        EXPECT(l->told == NEVER || l->failed != NEVER || l->declined || l->deferred || c.stopping(), "survived",
               "%s was asked to unlink, did not decline, but it is not shut down", c.name.c_str());
        EXPECT(!(l->init && l->failed != NEVER) || c.down_done, "survived", "a link of %s failed, but it is not shut down", c.name.c_str());
    }
}

plan_t make_plan(src_t &src) {
    plan_t p;
    p.sup = src.chance(20);
    p.links = (int)src.weighted({25, 40, 25, 10});
    p.delay = src.chance(40) ? src.range(0, 20) * MS : 0;
    if (src.chance(12))
        p.init_timeout = src.range(1, 10) * MS;
    if (src.chance(25))
        p.decline_pct = src.chance(50) ? 100 : 50;
    if (src.chance(25))
        p.defer_pct = src.chance(50) ? 100 : 50;
    p.new_loc = src.chance(30);
    return p;
}
void create(sup_t &parent, const plan_t &p) {
    NEXT_PLAN = &p;
    eng::trace("  a new child of %s", parent.m->name.c_str());
    if (p.sup) {
        sup_opts_t o;
        o.loc = p.new_loc && W->locs.size() < 3 ? W->new_loc() : parent.loc;
        o.plain = W->src.chance(50);
        if (p.init_timeout != FAR)
            o.init_timeout = p.init_timeout;
        make_child_sup<snode_t, spnode_t>(parent, o);
    } else {
        act_opts_t o;
        o.init_timeout = p.init_timeout;
        make_actor<anode_t>(parent, o);
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    w.on_hook = hook;
    int nroot = (int)src.range(1, 2);
    for (int i = 0; i < nroot; ++i) {
        plan_t p = make_plan(src);
        p.init_timeout = FAR;
        p.delay = 0;
        p.links = (int)src.draw(2);
        NEXT_PLAN = &p;
        sup_opts_t o;
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        make_root<snode_t, spnode_t>(o);
    }
    w.settle(0);
    int made = 0;
    int steps = (int)src.range(3, 80);
    int maxn = (int)src.range(2, eng::thorough() ? 16 : 10);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({50, made < maxn ? 30u : 0u, 10, 7, 4});
        if (k == 0) {
            w.step(w.now + 20 * MS);
            continue;
        }
        if (k == 4) {
            w.settle(w.now + LIMIT);
            settled();
            eng::label("settled in between");
            continue;
        }
        std::vector<node_i *> up;
        for (auto *x : n.nodes)
            if (x && x->mo->phase() >= 1 && x->mo->phase() <= 3)
                up.push_back(x);
        if (up.empty())
            break;
        auto *x = src.pick(up);
        if (k == 1) {
            auto p = make_plan(src);
            if (!x->as_sup() || x->mo->phase() != 3)
                continue;
            ++made;
            w.in_loc(x->mo->loc, [&] { create(*x->as_sup(), p); });
        } else if (k == 2) { // one more link
            if (x->mo->phase() == 3 && x->idx > 0)
                w.in_loc(x->mo->loc, [&] {
                    int s = (int)src.draw((uint32_t)x->idx);
                    x->link_to(s, src.chance(30) && !n.ancestor(s, x->idx));
                });
        } else {
            if (x->mo->parent < 0 && src.chance(70))
                continue;
            n.cause.insert(x->idx);
            eng::trace("  stop %s", x->mo->name.c_str());
            w.in_loc(x->mo->loc, [&] { x->actor().do_shutdown(); });
        }
    }
    bool rush = src.chance(40);
    if (!rush) {
        w.settle(w.now + LIMIT);
        settled();
    }
    std::vector<sup_t *> roots;
    for (auto &k : w.keep)
        if (k->m->parent < 0 && !k->m->stopping())
            roots.push_back(k.get());
    while (!roots.empty()) {
        auto i = src.draw((uint32_t)roots.size());
        auto *s = roots[i];
        roots.erase(roots.begin() + i);
        for (size_t j = 0; j < n.mons.size(); ++j)
            if (n.mons[j] == s->m)
                n.cause.insert((int)j);
        eng::trace("  stop %s", s->m->name.c_str());
        w.in_loc(s->loc->id, [&] { s->do_shutdown(); });
        for (auto c = src.range(0, 30); c > 0; --c)
            w.step(w.now + 20 * MS);
    }
    w.settle(w.now + LIMIT);
    settled();
    for (auto &m : w.mons)
        EXPECT(m->down_done, "shutdown", "%s does not shut down", m->name.c_str());
    unsigned ok = 0, told = 0, failed = 0;
    for (auto &l : n.links) {
        ok += l->ok != NEVER;
        failed += l->failed != NEVER;
        told += l->told != NEVER;
    }
    eng::count("links", n.links.size());
    eng::count("links confirmed", ok);
    eng::count("links failed", failed);
    eng::count("asked to unlink", told);
    if (ok >= 2 && told)
        eng::nontrivial();
    n.addrs.clear();
    n.index.clear();
    N = nullptr;
    w.on_hook = {};
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C10",
    "up to 16 actors and supervisors in 1-3 localities, created one after another, link (while initializing and later; operational-only or "
    "not) to random older ones, which may still initialize, be operational, or shut down; clients decline or defer unlinking; actors and "
    "whole trees are shut down at random moments; non-trivial: at least 2 links were confirmed and one client was asked to unlink",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
