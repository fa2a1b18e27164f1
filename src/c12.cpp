// C12: declared services are registered, discovered and linked before operation
#include "sim.h"
#include "rotor/registry.h"
#include <map>
#include <set>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;
using reg_m = r::message::registration_request_t;
using dis_m = r::message::discovery_request_t;
using pro_m = r::message::discovery_promise_t;
using can_m = r::message::discovery_cancel_t;
using rp_t = r::plugin::registry_plugin_t;

struct node_i;
struct reg_t {
    std::string name;
    r::address_t *addr = nullptr;
    bool asked = false, ok = false, refused = false;
};
struct disc_t {
    std::string name;
    bool delayed, op_only;
    r::address_ptr_t var;
    bool asked = false, refused = false, cancelled = false;
    r::address_t *answer = nullptr; // what the registry should have told
    int cb_found = 0, cb_linked = 0, cb_failed = 0;
    bool told = false; // on_unlink
};
struct plan_t {
    bool sup = false, new_loc = false;
    uint64_t init_timeout = FAR, delay = 0;
    bool decline = false;
};
struct entry_t {
    r::address_t *addr;
    int owner;
};
struct net_t {
    r::address_ptr_t reg;
    mon_t *reg_root = nullptr;
    std::vector<node_i *> nodes;
    std::vector<mon_t *> mons;
    std::vector<plan_t> plans;
    std::vector<r::address_ptr_t> addrs;
    std::map<r::address_t *, int> index;
    std::vector<std::vector<std::unique_ptr<reg_t>>> regs;
    std::vector<std::vector<std::unique_ptr<disc_t>>> discs;
    std::set<int> cause, cb_cause;
    std::map<std::string, entry_t> map;
    std::vector<std::pair<int, disc_t *>> promises;
    std::vector<std::vector<std::string>> levels; // names; only names of lower levels are looked for
    int node_of(const r::address_ptr_t &a) {
        auto it = index.find(a.get());
        return it == index.end() ? -1 : it->second;
    }
    bool has_cause(int i) {
        if (reg_root->stopping() && (!regs[i].empty() || !discs[i].empty()))
            return true;
        for (auto &d : discs[i]) // the link might be refused
            if (d->answer && !mons[i]->n[H_INIT_FINISH] && mons[node_of(d->answer)]->stopping())
                return true;
        for (int m = mons[i]->id; m >= 0; m = W->mon(m).parent)
            for (size_t k = 0; k < mons.size(); ++k)
                if (mons[k]->id == m && (cause.count((int)k) || (m != mons[i]->id && mons[k]->stopping())))
                    return true;
        for (int m = mons[i]->id; m >= 0; m = W->mon(m).parent)
            if (m != mons[i]->id && W->mon(m).stopping())
                return true;
        return false;
    }
    disc_t *disc(int i, const std::string &name) {
        for (auto &d : discs[i])
            if (d->name == name)
                return d.get();
        return nullptr;
    }
    reg_t *regi(int i, const std::string &name) {
        for (auto &d : regs[i])
            if (d->name == name)
                return d.get();
        return nullptr;
    }
    void settled();
};
net_t *N;
const plan_t *NEXT_PLAN;

struct node_i {
    mon_t *mo = nullptr;
    int idx = -1;
    int level = 1000; // not known yet
    virtual ~node_i() = default;
    virtual r::actor_base_t &actor() = 0;
    virtual sup_t *as_sup() = 0;
};

struct watched_registry_t : r::registry_t {
    using r::registry_t::registry_t;
    void on_reg(reg_m &m) noexcept override {
        if (N) {
            auto &p = m.payload.request_payload;
            int i = N->node_of(m.payload.origin);
            EXPECT(i >= 0, "phantom", "somebody unknown registers '%s'", p.service_name.c_str());
            auto *q = N->regi(i, p.service_name);
            EXPECT(q && !q->asked, "registration", "%s registers '%s' %s", N->mons[i]->name.c_str(), p.service_name.c_str(), q ? "twice" : "undeclared");
            EXPECT(q->addr == p.service_addr.get(), "registration", "%s registers a wrong address under '%s'", N->mons[i]->name.c_str(),
                   p.service_name.c_str());
            q->asked = true;
            if (N->map.count(q->name)) {
                q->refused = true;
                N->cause.insert(i);
                eng::label("name is taken");
            } else {
                q->ok = true;
                N->map[q->name] = {q->addr, i};
                for (size_t k = 0; k < N->promises.size();)
                    if (N->promises[k].second->name == q->name) {
                        N->promises[k].second->answer = q->addr;
                        N->promises.erase(N->promises.begin() + k);
                        eng::label("delayed discovery succeeds");
                    } else
                        ++k;
            }
            eng::trace("  [reg] %s registers '%s'%s", N->mons[i]->name.c_str(), q->name.c_str(), q->refused ? ": taken" : "");
        }
        r::registry_t::on_reg(m);
    }
    template <typename M> disc_t &asked(M &m, bool delayed, int &i) {
        auto &p = m.payload.request_payload;
        i = N->node_of(m.payload.origin);
        EXPECT(i >= 0, "phantom", "somebody unknown discovers '%s'", p.service_name.c_str());
        auto *q = N->disc(i, p.service_name);
        EXPECT(q && !q->asked && q->delayed == delayed, "discovery", "%s discovers '%s': %s", N->mons[i]->name.c_str(), p.service_name.c_str(),
               !q ? "undeclared" : q->asked ? "twice" : "not as declared");
        q->asked = true;
        auto it = N->map.find(q->name);
        if (it != N->map.end())
            q->answer = it->second.addr;
        eng::trace("  [reg] %s discovers '%s'%s%s", N->mons[i]->name.c_str(), q->name.c_str(), delayed ? " (delayed)" : "",
                   q->answer ? "" : ": unknown");
        return *q;
    }
    void on_discovery(dis_m &m) noexcept override {
        if (N) {
            int i;
            auto &q = asked(m, false, i);
            if (!q.answer) {
                q.refused = true;
                N->cause.insert(i);
                eng::label("name is unknown");
            }
        }
        r::registry_t::on_discovery(m);
    }
    void on_promise(pro_m &m) noexcept override {
        if (N) {
            int i;
            auto &q = asked(m, true, i);
            if (!q.answer)
                N->promises.emplace_back(i, &q);
        }
        r::registry_t::on_promise(m);
    }
    void on_dereg_service(r::message::deregistration_service_t &m) noexcept override {
        if (N) {
            auto it = N->map.find(m.payload.service_name);
            if (it != N->map.end()) {
                auto &o = *N->mons[it->second.owner];
                EXPECT(o.stopping(), "deregistered", "'%s' is deregistered while its owner %s is not shutting down", m.payload.service_name.c_str(),
                       o.name.c_str());
                eng::trace("  [reg] '%s' is free", m.payload.service_name.c_str());
                N->map.erase(it);
            }
        }
        r::registry_t::on_dereg_service(m);
    }
    void on_dereg(r::message::deregistration_notify_t &m) noexcept override {
        if (N)
            for (auto it = N->map.begin(); it != N->map.end();)
                if (it->second.addr == m.payload.service_addr.get()) {
                    auto &o = *N->mons[it->second.owner];
                    EXPECT(o.stopping(), "deregistered", "'%s' is deregistered while its owner %s is not shutting down", it->first.c_str(),
                           o.name.c_str());
                    it = N->map.erase(it);
                } else
                    ++it;
        r::registry_t::on_dereg(m);
    }
    void on_cancel(can_m &m) noexcept override {
        if (N) {
            int i = N->node_of(m.payload.source);
            size_t before = promises.size();
            r::registry_t::on_cancel(m);
            if (promises.size() < before)
                for (size_t k = 0; k < N->promises.size(); ++k)
                    if (N->promises[k].first == i) { // the ones which are left are known to the registry
                        bool left = false;
                        for (auto &p : promises)
                            left |= p->payload.origin == m.payload.source &&
                                    p->payload.request_payload.service_name == N->promises[k].second->name;
                        if (!left) {
                            EXPECT(N->mons[i]->stopping(), "withdrawn", "%s withdraws discovery of '%s' though it is not shutting down",
                                   N->mons[i]->name.c_str(), N->promises[k].second->name.c_str());
                            N->promises[k].second->cancelled = true;
                            N->promises.erase(N->promises.begin() + k);
                            eng::label("delayed discovery is withdrawn");
                            break;
                        }
                    }
            return;
        }
        r::registry_t::on_cancel(m);
    }
};

template <typename Base> struct node_t : Base, node_i {
    plan_t plan;
    bool held = false;
    template <typename C> explicit node_t(C &c) : Base(c), plan{*NEXT_PLAN} {
        mo = Base::m;
        idx = (int)N->nodes.size();
        N->nodes.push_back(this);
        N->mons.push_back(mo);
        N->plans.push_back(plan);
        N->addrs.emplace_back();
        N->regs.emplace_back();
        N->discs.emplace_back();
    }
    ~node_t() {
        if (N)
            N->nodes[idx] = nullptr;
    }
    r::actor_base_t &actor() override { return *this; }
    sup_t *as_sup() override {
        if constexpr (std::is_base_of_v<sup_t, Base>)
            return this;
        else
            return nullptr;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &) {
            N->addrs[idx] = Base::address;
            N->index[Base::address.get()] = idx;
        });
        p.with_casted<rp_t>([&](auto &pl) { declare(pl); });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
            if (plan.delay) {
                held = true;
                Base::resources->acquire();
                Base::start_timer(us(plan.delay), *this, &node_t::on_init_timer);
            }
        });
    }
    void declare(rp_t &pl) {
        auto &src = W->src;
        auto &name = Base::m->name;
        level = (int)src.draw((uint32_t)N->levels.size());
        std::set<std::string> used;
        for (auto k = src.weighted({25, 45, 25, 5}); k > 0; --k) { // names to register
            auto &n = src.pick(N->levels[level]);
            if (!used.insert(n).second)
                continue;
            auto a = Base::address;
            if (src.chance(25)) // on behalf of somebody else
                for (size_t t = 0; t < 3; ++t) {
                    auto *x = N->nodes[src.draw((uint32_t)N->nodes.size())];
                    if (x && x->level <= level && N->addrs[x->idx] && x->mo->phase() >= 1) {
                        a = N->addrs[x->idx];
                        break;
                    }
                }
            auto q = std::make_unique<reg_t>();
            q->name = n;
            q->addr = a.get();
            eng::trace("  [loc %d] %s declares to register '%s'%s", W->cur_loc, name.c_str(), n.c_str(), a == Base::address ? "" : " (another actor)");
            N->regs[idx].push_back(std::move(q));
            pl.register_name(n, a);
        }
        if (level > 0)
            for (auto k = src.weighted({25, 40, 20, 15}); k > 0; --k) {
                auto &n = src.pick(N->levels[src.draw((uint32_t)level)]);
                if (!used.insert(n).second)
                    continue;
                auto q = std::make_unique<disc_t>();
                auto *d = q.get();
                d->name = n;
                d->delayed = src.chance(80);
                d->op_only = src.chance(30);
                eng::trace("  [loc %d] %s declares to discover '%s'%s%s", W->cur_loc, name.c_str(), n.c_str(), d->delayed ? " (delayed)" : "",
                           d->op_only ? ", link when operational" : "");
                N->discs[idx].push_back(std::move(q));
                auto &task = pl.discover_name(n, d->var, d->delayed).link(d->op_only);
                if (src.chance(80)) {
                    auto *mon = Base::m;
                    int i = idx;
                    task.callback([d, mon, i](rp_t::phase_t ph, const r::extended_error_ptr_t &ee) {
                        if (!N)
                            return;
                        eng::trace("  [loc %d] %s: '%s' is %s%s", W->cur_loc, mon->name.c_str(), d->name.c_str(),
                                   ph == rp_t::phase_t::discovering ? "discovered" : "linked", ee ? ": failed" : "");
                        if (ee) {
                            ++d->cb_failed;
                            N->cause.insert(i);
                            return;
                        }
                        if (ph == rp_t::phase_t::discovering) {
                            ++d->cb_found;
                            EXPECT(d->answer, "callback", "%s: '%s' is discovered before it is known", mon->name.c_str(), d->name.c_str());
                        } else {
                            ++d->cb_linked;
                            EXPECT(d->cb_found, "callback", "%s: '%s' is linked, but not discovered", mon->name.c_str(), d->name.c_str());
                        }
                    });
                } else {
                    d->cb_found = d->cb_linked = -1;
                }
            }
    }
    void on_init_timer(r::request_id_t, bool) noexcept { release(); }
    void release() {
        if (held) {
            held = false;
            Base::resources->release();
        }
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        release();
    }
    bool on_unlink(const r::address_ptr_t &a) noexcept override {
        if (!N)
            return true;
        auto *name = Base::m->name.c_str();
        EXPECT(W->cur_loc == Base::m->loc, "wrong-locality", "on_unlink is called in another locality");
        if (a == N->reg) {
            EXPECT(N->reg_root->stopping(), "told", "%s is asked to unlink from the registry, which is not shutting down", name);
            N->cause.insert(idx);
            return true;
        }
        int s = N->node_of(a);
        bool found = false;
        for (auto &d : N->discs[idx])
            if (d->answer == a.get()) {
                d->told = true;
                found = true;
            }
        EXPECT(found, "told", "%s is asked to unlink from somebody it has not discovered", name);
        EXPECT(N->mons[s]->stopping(), "told", "%s is asked to unlink from %s, which is not shutting down", name, N->mons[s]->name.c_str());
        eng::trace("  [loc %d] %s is asked to unlink from %s%s", W->cur_loc, name, N->mons[s]->name.c_str(), plan.decline ? ", declines" : "");
        eng::label("a consumer is asked to unlink");
        if (!plan.decline)
            N->cause.insert(idx);
        return !plan.decline;
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

void hook(mon_t &m, hook_t h) {
    if (!N)
        return;
    int idx = -1;
    for (size_t i = 0; i < N->mons.size(); ++i)
        if (N->mons[i] == &m)
            idx = (int)i;
    if (idx < 0)
        return;
    auto *name = m.name.c_str();
    if (h == H_INIT_FINISH) {
        for (auto &q : N->regs[idx])
            EXPECT(q->ok, "early", "%s is initialized, but '%s' is not registered", name, q->name.c_str());
        for (auto &d : N->discs[idx]) {
            EXPECT(d->answer, "early", "%s is initialized, but '%s' is not discovered", name, d->name.c_str());
            EXPECT(d->var.get() == d->answer, "address", "%s is initialized, but the address of '%s' is %s", name, d->name.c_str(),
                   d->var ? "wrong" : "not set");
            EXPECT(!d->cb_failed, "early", "%s is initialized, but it is not linked with '%s'", name, d->name.c_str());
            EXPECT(d->cb_found == -1 || (d->cb_found == 1 && d->cb_linked == 1), "callback",
                   "%s is initialized, the callback for '%s' has been invoked %d times on discovery, %d on linking", name, d->name.c_str(), d->cb_found,
                   d->cb_linked);
        }
    } else if (h == H_SHUTDOWN_FINISH) {
        for (size_t i = 0; i < N->mons.size(); ++i)
            if (N->mons[i]->n[H_INIT_FINISH] && !N->mons[i]->stopping() && !N->plans[i].decline)
                for (auto &d : N->discs[i])
                    EXPECT(d->answer != N->addrs[idx].get() || d->told, "not-linked",
                           "%s is shut down, but its discoverer %s is neither asked to unlink nor shutting down", name, N->mons[i]->name.c_str());
    }
}

void net_t::settled() {
    bool reg_gone = reg_root->stopping();
    for (size_t i = 0; i < mons.size(); ++i) {
        auto &m = *mons[i];
        auto *name = m.name.c_str();
        EXPECT(!m.stopping() || m.down_done, "shutdown", "%s does not finish its shutdown", name);
        EXPECT(!m.stopping() || has_cause((int)i) || m.t_at[H_SHUTDOWN_START] >= plans[i].init_timeout, "no-cause", "%s is shut down for no reason: %s",
               name, m.reason ? m.reason->message().c_str() : "");
        bool refused = false, waits = reg_gone;
        for (auto &q : regs[i])
            refused |= q->refused;
        for (auto &d : discs[i]) {
            refused |= d->refused;
            if (d->delayed && d->asked && !d->answer)
                waits = true;
            if (d->answer) {
                int s = node_of(d->answer);
                auto ph = mons[s]->phase();
                if (ph == 4 || ph == 5 || (d->op_only && (ph == 1 || ph == 2)))
                    waits = true;
            }
        }
        EXPECT(!refused || m.down_done, "survived", "%s: a registration or discovery failed, but it is not shut down", name);
        EXPECT(waits || (m.phase() != 1 && m.phase() != 2), "stuck", "%s does not become operational", name);
        if (waits && (m.phase() == 1 || m.phase() == 2))
            eng::label("waits for a name");
        if (reg_gone)
            continue;
        for (auto &q : regs[i]) {
            auto it = map.find(q->name);
            if (m.down() && plans[i].init_timeout == FAR)
                EXPECT(it == map.end() || it->second.owner != (int)i, "not-freed", "%s is shut down, but '%s' is still registered by it", name,
                       q->name.c_str());
            if (m.n[H_INIT_FINISH] && !m.stopping())
                EXPECT(it != map.end() && it->second.owner == (int)i && it->second.addr == q->addr, "not-registered",
                       "%s is operational, but '%s' is not registered", name, q->name.c_str());
        }
        if (m.down() && plans[i].init_timeout == FAR)
            for (auto &p : promises)
                EXPECT(p.first != (int)i, "withdrawn", "%s is shut down, but its delayed discovery of '%s' is not withdrawn", name,
                       p.second->name.c_str());
    }
}

plan_t make_plan(src_t &src) {
    plan_t p;
    p.sup = src.chance(15);
    p.delay = src.chance(40) ? src.range(0, 20) * MS : 0;
    if (src.chance(10))
        p.init_timeout = src.range(1, 10) * MS;
    p.decline = src.chance(10);
    p.new_loc = src.chance(40);
    return p;
}
void create(sup_t &parent, const plan_t &p) {
    NEXT_PLAN = &p;
    eng::trace("  a new child of %s", parent.m->name.c_str());
    if (p.sup) {
        sup_opts_t o;
        o.loc = p.new_loc && W->locs.size() < 4 ? W->new_loc() : parent.loc;
        o.plain = W->src.chance(50);
        if (p.init_timeout != FAR)
            o.init_timeout = p.init_timeout;
        make_child_sup<snode_t, spnode_t>(parent, o);
    } else {
        act_opts_t o;
        o.init_timeout = p.init_timeout;
        make_actor<anode_t>(parent, o);
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    w.on_hook = hook;
    char c = 'a';
    for (auto k = src.range(2, 3); k > 0; --k) {
        n.levels.emplace_back();
        for (auto j = src.range(1, 4); j > 0; --j)
            n.levels.back().push_back(std::string(1, c++));
    }
    std::vector<sup_t *> sups;
    {
        sup_opts_t o;
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        auto *root = make_root<>(o);
        w.settle(0);
        r::intrusive_ptr_t<watched_registry_t> reg;
        w.in_loc(0, [&] { reg = root->create_actor<watched_registry_t>().timeout(us(FAR)).finish(); });
        if (src.chance(50))
            w.settle(0);
        n.reg = reg->get_address();
        n.reg_root = root->m;
    }
    for (auto k = src.range(1, 2); k > 0; --k) {
        sup_opts_t o;
        o.loc = w.new_loc();
        o.registry_addr = n.reg;
        o.plain = src.chance(50);
        plan_t p;
        NEXT_PLAN = &p;
        sups.push_back(make_root<>(o));
    }
    w.settle(0);
    int made = 0;
    int steps = (int)src.range(3, 80);
    int maxn = (int)src.range(2, eng::thorough() ? 16 : 10);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({50, made < maxn ? 35u : 0u, 7, 4, 1});
        if (k == 0) {
            w.step(w.now + 20 * MS);
            continue;
        }
        if (k == 3) {
            w.settle(w.now + LIMIT);
            n.settled();
            eng::label("settled in between");
            continue;
        }
        if (k == 4) {
            if (!n.reg_root->stopping() && src.chance(30)) {
                eng::trace("  stop the supervisor of the registry");
                eng::label("registry stopped early");
                w.in_loc(0, [&] { n.reg_root->ptr->do_shutdown(); });
            }
            continue;
        }
        if (k == 1) {
            std::vector<sup_t *> l;
            for (auto *s : sups)
                if (s->m->phase() == 3)
                    l.push_back(s);
            for (auto *x : n.nodes)
                if (x && x->as_sup() && x->mo->phase() == 3)
                    l.push_back(x->as_sup());
            if (l.empty())
                continue;
            auto *s = src.pick(l);
            auto p = make_plan(src);
            ++made;
            w.in_loc(s->m->loc, [&] { create(*s, p); });
        } else {
            std::vector<node_i *> up;
            for (auto *x : n.nodes)
                if (x && x->mo->phase() >= 1 && x->mo->phase() <= 3)
                    up.push_back(x);
            if (up.empty())
                continue;
            auto *x = src.pick(up);
            n.cause.insert(x->idx);
            eng::trace("  stop %s", x->mo->name.c_str());
            w.in_loc(x->mo->loc, [&] { x->actor().do_shutdown(); });
        }
    }
    if (!src.chance(40)) {
        w.settle(w.now + LIMIT);
        n.settled();
    }
    std::vector<sup_t *> roots;
    for (auto &k : w.keep)
        if (k->m->parent < 0 && !k->m->stopping())
            roots.push_back(k.get());
    while (!roots.empty()) {
        auto i = roots.size() - 1 - src.draw((uint32_t)roots.size());
        auto *s = roots[i];
        roots.erase(roots.begin() + i);
        eng::trace("  stop %s", s->m->name.c_str());
        w.in_loc(s->loc->id, [&] { s->do_shutdown(); });
        for (auto c = src.range(0, 30); c > 0; --c)
            w.step(w.now + 20 * MS);
    }
    w.settle(w.now + LIMIT);
    n.settled();
    for (auto &m : w.mons)
        EXPECT(m->down_done, "shutdown", "%s does not shut down", m->name.c_str());
    unsigned regs = 0, discs = 0;
    for (size_t i = 0; i < n.mons.size(); ++i)
        if (n.mons[i]->n[H_INIT_FINISH]) {
            regs += n.regs[i].size();
            discs += n.discs[i].size();
        }
    eng::count("registered", regs);
    eng::count("discovered and linked", discs);
    if (regs && discs)
        eng::nontrivial();
    n.addrs.clear();
    n.index.clear();
    n.discs.clear();
    n.reg.reset();
    N = nullptr;
    w.on_hook = {};
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C12",
    "up to 16 actors and supervisors in 2-4 localities, created one after another, declare 0-3 names to register (sometimes for other "
    "actors' addresses) and 0-3 names to discover (delayed or not, linked when operational or not); actors, trees and the registry are shut down "
    "at random moments; non-trivial: some node became initialized after registering and one after discovering",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
