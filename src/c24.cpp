// C24: plugins, the user's included, are configured, polled and let go through the whole lifecycle
#include "sim.h"
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
constexpr int PROBES = 4;
using PB = r::plugin::plugin_base_t;
using phase_e = r::plugin::config_phase_t;

struct actor_rec_t;
struct node_i;

// what is known about one plugin of the user
struct probe_rec_t {
    int slot = 0;
    actor_rec_t *a = nullptr;
    unsigned want = 0;                     // reactions it asks for when it is activated
    bool gate[2] = {true, true};           // initialization, shutdown: may it be over?
    bool blocked[2] = {false, false};      // was it polled while the gate was closed
    int activated = 0, deactivated = 0, started = 0;
    bool start_on = false;
    uint64_t polls[2] = {0, 0};
    bool done[2] = {true, true};           // the last answer (true: does not take part)
    bool conf_pre = false, conf_post = false, conf_init = false, configured = false;
    int mask = 2;                          // phases, in which the user wants to configure it
    int conf_hits = 0;
    int nsubs = 0;                         // own handlers
    bool eat = false;                      // is done with subscriptions after the first one
    bool ate = false;
    bool again = false;                    // the reaction was turned on again, not polled since then
    int got = 0;                           // messages
};
struct point_rec_t { // a subscription of the actor itself
    int type;
    r::address_ptr_t addr;
    r::subscription_info_ptr_t info;
    bool unsub = false;
    int sub_seen[PROBES] = {0}, unsub_seen[PROBES] = {0};
    bool sub_due[PROBES] = {false};
    bool confirmed = false;
};
struct actor_rec_t {
    mon_t *m = nullptr;
    std::vector<std::unique_ptr<probe_rec_t>> probes; // in the order of the list
    std::vector<std::unique_ptr<point_rec_t>> points;
    std::map<std::string, int> conf; // how often each of the framework's plugins was configured (in the main phase)
    std::map<std::string, int> pre;
    node_i *n = nullptr;
    int depth = 0, kids = 0, got = 0;
    bool fail_init = false;
    std::string ident; // how it is identified
    bool ident_addr = true;
};
std::vector<std::unique_ptr<actor_rec_t>> *ACTORS;
int g_budget;
bool g_failed; // somebody was shut down before it was started, its supervisor is about to follow
r::address_ptr_t g_root_addr;

struct node_i {
    actor_rec_t *ar = nullptr;
    virtual r::actor_base_t &actor() = 0;
    virtual void go_on(int what) = 0;
    virtual PB *probe(int slot) = 0;
    virtual ~node_i() = default;
};

template <int N> struct probe_t : PB {
    static const std::type_index class_identity;
    probe_rec_t *rec = nullptr;
    const std::type_index &identity() const noexcept override { return class_identity; }
    void conf(phase_e ph) noexcept {
        auto before = rec->conf_hits;
        this->actor->configure(*this);
        int expected = (rec->mask & (int)ph) ? 1 : 0;
        EXPECT(rec->conf_hits - before == expected, "configure", "%s: plugin %d is configured %d time(s), expected %d", name(), rec->slot,
               rec->conf_hits - before, expected);
    }
    const char *name() { return rec->a->m->name.c_str(); }
    void activate(r::actor_base_t *a) noexcept override {
        auto *n = dynamic_cast<node_i *>(a);
        EXPECT(n, "activate", "plugin is activated by somebody else");
        auto &src = W->src;
        auto &ps = n->ar->probes;
        for (auto &p : ps)
            EXPECT(p->slot != N, "activate", "%s: plugin %d is activated twice", n->ar->m->name.c_str(), N);
        ps.emplace_back(new probe_rec_t());
        rec = ps.back().get();
        rec->slot = N;
        rec->a = n->ar;
        ++rec->activated;
        eng::trace("  %s: plugin %d is activated", name(), N);
        this->actor = a;
        rec->mask = (int)src.range(1, 3);
        rec->conf_pre = src.chance(40);
        rec->conf_post = src.chance(40);
        rec->conf_init = src.chance(40);
        if (rec->conf_pre)
            conf(phase_e::PREINIT);
        PB::activate(a);
        unsigned w = (unsigned)src.draw(16);
        rec->want = w;
        if (w & INIT) {
            reaction_on(INIT);
            rec->gate[0] = !src.chance(40);
            rec->done[0] = false;
        }
        if (w & SHUTDOWN) {
            reaction_on(SHUTDOWN);
            rec->gate[1] = !src.chance(40);
            rec->done[1] = false;
        }
        if (w & SUBSCRIPTION) {
            reaction_on(SUBSCRIPTION);
            rec->eat = src.chance(25);
        }
        if (w & START) {
            reaction_on(START);
            rec->start_on = true;
        }
        if (rec->conf_post)
            conf(phase_e::INITIALIZING);
        rec->nsubs = (int)src.draw(3);
        if (rec->nsubs > 0)
            subscribe(&probe_t::on0);
        if (rec->nsubs > 1)
            subscribe(&probe_t::on1, g_root_addr && src.chance(50) ? g_root_addr : a->get_address());
    }
    void deactivate() noexcept override {
        ++rec->deactivated;
        eng::trace("  %s: plugin %d is deactivated", name(), N);
        PB::deactivate();
    }
    bool poll(int what, bool msg) noexcept {
        auto re = what ? SHUTDOWN : INIT;
        const char *w = what ? "shutdown" : "initialization";
        auto &m = *rec->a->m;
        ++rec->polls[what];
        rec->again = false;
        eng::trace("  %s: plugin %d is asked about %s: %s", name(), N, w, rec->gate[what] ? "done" : "not yet");
        EXPECT(get_reaction() & re, "poll", "%s: plugin %d does not react to %s, but it is polled", name(), N, w);
        EXPECT(!rec->done[what], "poll", "%s: plugin %d is done with its %s, but it is polled again", name(), N, w);
        EXPECT(m.phase() == (what ? 4 : 1), "poll", "%s: plugin %d is polled about %s in phase %d", name(), N, w, m.phase());
        EXPECT(W->cur_loc == m.loc, "locality", "polled outside of the locality");
        EXPECT(what || msg, "poll", "%s: there is no request to initialize", name());
        EXPECT(!rec->deactivated, "poll", "%s: plugin %d is polled after it was deactivated", name(), N);
        bool before = true;
        for (auto &p : rec->a->probes) {
            if (p.get() == rec) {
                before = false;
                continue;
            }
            if (before == (what == 0))
                EXPECT(p->done[what] || p->again, "order", "%s: plugin %d is polled about %s, but plugin %d is not done yet", name(), N, w, p->slot);
        }
        if (!what && rec->conf_init && !rec->configured) {
            rec->configured = true;
            conf(phase_e::INITIALIZING);
        }
        auto &src = W->src;
        if (!what && rec->a->fail_init) {
            rec->a->fail_init = false;
            g_failed = true;
            eng::trace("  %s shuts itself down", name());
            this->actor->do_shutdown();
        }
        if (rec->gate[what]) {
            rec->done[what] = true;
            if (!what && g_budget > 0 && src.chance(15)) { // another plugin is not ready any longer
                auto &p = src.pick(rec->a->probes);
                if (p.get() != rec && !(p->want & INIT ? !p->done[0] : false)) {
                    --g_budget;
                    eng::trace("  %s: plugin %d has something to do again", name(), p->slot);
                    eng::label("reaction is turned on again");
                    p->want |= INIT;
                    p->done[0] = false;
                    p->again = true;
                    p->gate[0] = src.chance(50);
                    again(*p);
                }
            }
            return true;
        }
        rec->blocked[what] = true;
        return false;
    }
    void again(probe_rec_t &p) noexcept;
    bool handle_init(r::message::init_request_t *m) noexcept override { return poll(0, m); }
    bool handle_shutdown(r::message::shutdown_request_t *m) noexcept override { return poll(1, m); }
    void handle_start(r::message::start_trigger_t *m) noexcept override {
        EXPECT(m, "start", "no message");
        auto &mo = *rec->a->m;
        eng::trace("  %s: plugin %d is told about the start", name(), N);
        EXPECT(rec->start_on, "start", "%s: plugin %d does not react to the start", name(), N);
        EXPECT(!rec->started++, "start", "%s: plugin %d is told about the start twice", name(), N);
        EXPECT(mo.initialized() && !mo.stopping(), "start", "%s: plugin %d is told about the start in phase %d", name(), N, mo.phase());
    }
    bool handle_subscription(r::message::subscription_t &m) noexcept override {
        EXPECT((rec->want & SUBSCRIPTION) && !rec->ate, "subscription", "%s: plugin %d does not react to subscriptions", name(), N);
        EXPECT(!PB::handle_subscription(m), "subscription", "the default is to stay");
        seen(m.payload.point, true);
        if (rec->eat)
            rec->ate = true;
        return rec->eat;
    }
    bool handle_unsubscription(const r::subscription_point_t &p, bool external) noexcept override {
        seen(p, false);
        return PB::handle_unsubscription(p, external);
    }
    void seen(const r::subscription_point_t &p, bool sub) noexcept {
        for (auto &pt : rec->a->points)
            if (pt->info->handler == p.handler && pt->info->address == p.address) {
                eng::trace("  %s: plugin %d sees %s of M%d", name(), N, sub ? "subscription" : "unsubscription", pt->type);
                auto &c = (sub ? pt->sub_seen : pt->unsub_seen)[N];
                EXPECT(!c++, "subscription", "%s: plugin %d sees the same (un)subscription twice", name(), N);
                EXPECT(sub || pt->unsub || rec->a->m->stopping(), "subscription", "%s: nobody has unsubscribed", name());
            }
    }
    void on0(msg_t<0> &) noexcept { on(); }
    void on1(msg_t<1> &) noexcept { on(); }
    void on() noexcept {
        EXPECT(!rec->a->m->down_done, "handler", "%s: the handler of plugin %d runs after the shutdown", name(), N);
        ++rec->got;
    }
    using PB::actor;
};
template <int N> const std::type_index probe_t<N>::class_identity = typeid(probe_t<N>);

template <typename Base> struct node_t : Base, node_i {
    template <typename C> explicit node_t(C &cfg) : Base(cfg) {
        ACTORS->emplace_back(new actor_rec_t());
        ar = ACTORS->back().get();
        ar->m = Base::m;
        ar->n = this;
        ar->depth = Base::m->tag;
        ar->fail_init = W->src.chance(4);
        if constexpr (std::is_base_of_v<sup_t, Base>)
            ar->kids = (int)W->src.range(0, 3);
        ar->ident = std::is_base_of_v<sup_t, Base> ? "supervisor" : "actor";
    }
    ~node_t() { ar->n = nullptr; }
    r::actor_base_t &actor() override { return *this; }
    void go_on(int what) override {
        if (what)
            this->shutdown_continue();
        else
            this->init_continue();
    }
    PB *probe(int slot) override {
        const std::type_index *ids[] = {&probe_t<0>::class_identity, &probe_t<1>::class_identity, &probe_t<2>::class_identity, &probe_t<3>::class_identity};
        return Base::get_plugin(*ids[slot]);
    }
    template <int N> void conf_probe(PB &p) {
        for (auto &x : ar->probes)
            if (x->slot == N)
                p.with_casted<probe_t<N>>(
                    [&](auto &) {
                        ++x->conf_hits;
                        EXPECT(Base::get_plugin(probe_t<N>::class_identity) == &p, "get_plugin", "another plugin is found");
                    },
                    (phase_e)x->mask);
    }
    template <typename P> void conf_own(PB &p, const char *name) {
        p.with_casted<P>([&](auto &pl) {
            ++ar->conf[name];
            if constexpr (std::is_same_v<P, r::plugin::starter_plugin_t>) {
                if (W->src.chance(40)) {
                    auto &rec = point(0, Base::address);
                    rec.info = pl.subscribe_actor(&node_t::on_msg0);
                    if (W->src.chance(50)) { // another one on the same address
                        auto &rec2 = point(0, Base::address);
                        rec2.info = pl.subscribe_actor(&node_t::on_msg2);
                    }
                }
            }
        });
        p.with_casted<P>([&](auto &) { ++ar->pre[name]; }, phase_e::PREINIT);
    }
    void configure(PB &p) noexcept override {
        Base::configure(p);
        conf_probe<0>(p);
        conf_probe<1>(p);
        conf_probe<2>(p);
        conf_probe<3>(p);
        conf_own<r::plugin::address_maker_plugin_t>(p, "address_maker");
        p.with_casted<r::plugin::address_maker_plugin_t>([&](auto &pl) {
            if (W->src.chance(50)) {
                static const char *names[] = {"", "a", "actor", "the name of an actor which is longer than the buffer of a short string", "a b"};
                int i = (int)W->src.range(1, 4);
                bool append = W->src.chance(50);
                pl.set_identity(names[i], append);
                if (W->src.chance(10)) // the last one is in charge
                    pl.set_identity(names[i = (int)W->src.range(1, 4)], append = !append);
                ar->ident = names[i];
                ar->ident_addr = append;
            }
        });
        conf_own<r::plugin::link_client_plugin_t>(p, "link_client");
        conf_own<r::plugin::registry_plugin_t>(p, "registry");
        conf_own<r::plugin::resources_plugin_t>(p, "resources");
        conf_own<r::plugin::starter_plugin_t>(p, "starter");
        conf_own<r::plugin::child_manager_plugin_t>(p, "child_manager");
        if constexpr (std::is_base_of_v<sup_t, Base>)
            p.with_casted<r::plugin::child_manager_plugin_t>([&](auto &) { make_kids(); });
    }
    void make_kids();
    point_rec_t &point(int type, const r::address_ptr_t &a) {
        ar->points.emplace_back(new point_rec_t());
        auto &rec = *ar->points.back();
        rec.type = type;
        rec.addr = a;
        for (auto &p : ar->probes)
            rec.sub_due[p->slot] = (p->want & PB::SUBSCRIPTION) && !p->eat;
        return rec;
    }
    // an operation of the actor itself
    void op() {
        auto &src = W->src;
        bool have1 = false;
        point_rec_t *p0 = nullptr;
        for (auto &p : ar->points) {
            have1 |= p->type == 1;
            if (p->type == 1 && !p->unsub)
                p0 = p.get();
        }
        if (!have1) {
            auto a = g_root_addr && src.chance(50) ? g_root_addr : r::address_ptr_t(Base::address);
            auto &rec = point(1, a);
            eng::trace("  %s subscribes", Base::m->name.c_str());
            rec.info = this->subscribe(&node_t::on_msg1, a);
        } else if (p0 && p0->confirmed) {
            p0->unsub = true;
            eng::trace("  %s unsubscribes", Base::m->name.c_str());
            this->unsubscribe(&node_t::on_msg1, p0->addr);
        }
    }
    void on_msg0(msg_t<0> &) noexcept { ++ar->got; }
    void on_msg1(msg_t<1> &) noexcept { ++ar->got; }
    void on_msg2(msg_t<2> &) noexcept {}
};

template <typename L, typename... P> struct append_t;
template <typename... T, typename... P> struct append_t<std::tuple<T...>, P...> {
    using type = std::tuple<T..., P...>;
};
// the probes at the end of the list
struct act_end_t : node_t<act_t> {
    using node_t<act_t>::node_t;
    using plugins_list_t = append_t<act_t::plugins_list_t, probe_t<2>, probe_t<0>>::type;
};
// and among the plugins of the framework
struct act_mid_t : node_t<act_t> {
    using node_t<act_t>::node_t;
    using plugins_list_t =
        std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t, probe_t<3>,
                   r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, probe_t<0>, r::plugin::registry_plugin_t,
                   r::plugin::resources_plugin_t, probe_t<1>, r::plugin::starter_plugin_t, probe_t<2>>;
};
struct sup_end_t : node_t<sup_t> {
    using node_t<sup_t>::node_t;
    using plugins_list_t = append_t<sup_t::plugins_list_t, probe_t<1>, probe_t<3>>::type;
};
struct sup_mid_t : node_t<sup_t> {
    using node_t<sup_t>::node_t;
    using plugins_list_t =
        std::tuple<r::plugin::address_maker_plugin_t, r::plugin::locality_plugin_t, r::plugin::delivery_plugin_t<r::plugin::local_delivery_t>,
                   r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t, r::plugin::foreigners_support_plugin_t, probe_t<1>,
                   r::plugin::child_manager_plugin_t, probe_t<0>, r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t,
                   r::plugin::registry_plugin_t, r::plugin::resources_plugin_t, r::plugin::starter_plugin_t, probe_t<2>>;
};
template <typename Base> void node_t<Base>::make_kids() {
    if constexpr (std::is_base_of_v<sup_t, Base>)
        for (int i = 0; i < ar->kids; ++i) {
            if (ar->depth < 2 && W->src.chance(25)) {
                sup_opts_t o;
                o.loc = W->src.chance(30) ? W->new_loc() : Base::loc;
                o.tag = ar->depth + 1;
                o.sync = W->src.chance(30);
                o.plain = W->src.chance(50);
                make_child_sup<sup_end_t, sup_mid_t>(*this, o);
            } else if (W->src.chance(50))
                make_actor<act_end_t>(*this);
            else
                make_actor<act_mid_t>(*this);
        }
}
template <int N> void probe_t<N>::again(probe_rec_t &p) noexcept {
    auto *pl = rec->a->n->probe(p.slot);
    EXPECT(pl, "get_plugin", "the plugin is not found");
    pl->reaction_on(INIT);
}

void run(src_t &src) {
    world_t w(src);
    std::vector<std::unique_ptr<actor_rec_t>> actors;
    ACTORS = &actors;
    g_budget = (int)src.range(0, 4);
    g_failed = false;
    g_root_addr = {};
    auto rec_of = [&](mon_t &m) -> actor_rec_t * {
        for (auto &a : actors)
            if (a->m == &m)
                return a.get();
        return nullptr;
    };
    w.on_hook = [&](mon_t &m, hook_t h) {
        auto *a = rec_of(m);
        if (!a)
            return;
        if (h == H_INIT_START || h == H_INIT_FINISH || h == H_SHUTDOWN_FINISH) {
            auto expected = a->ident;
            if (a->ident_addr) {
                char buf[64];
                snprintf(buf, sizeof(buf), " %p", (void *)a->n->actor().get_address().get());
                expected += buf;
            }
            EXPECT(a->n->actor().get_identity() == expected, "identity", "%s is identified as '%s', expected '%s'", m.name.c_str(),
                   a->n->actor().get_identity().c_str(), expected.c_str());
        }
        if (h == H_INIT_FINISH || h == H_SHUTDOWN_FINISH) {
            int what = h == H_SHUTDOWN_FINISH;
            for (auto &p : a->probes) {
                EXPECT(p->done[what], what ? "shutdown" : "init", "%s completes its %s, but plugin %d is not done (polled %llu times)",
                       m.name.c_str(), what ? "shutdown" : "initialization", p->slot, (unsigned long long)p->polls[what]);
                EXPECT(!what || p->deactivated, "deactivate", "%s: plugin %d was deactivated %d times", m.name.c_str(), p->slot, p->deactivated);
            }
        }
        if (h == H_INIT_FINISH)
            for (auto &pt : a->points) // (the plugin behind the starter is the first to see it)
                EXPECT(pt->type != 0 || !pt->sub_due[2] || pt->sub_seen[2], "starter", "%s is initialized before its subscription is confirmed", m.name.c_str());
        if (h == H_INIT_FINISH)
            for (auto &p : a->probes)
                EXPECT(!p->conf_init || !(p->want & PB::INIT) || p->configured, "init", "not polled");
        if (h == H_INIT_FINISH)
            for (auto name : {"address_maker", "link_client", "registry", "resources", "starter", "child_manager"}) {
                int expected = !m.sup && !strcmp(name, "child_manager") ? 0 : 1;
                EXPECT(a->conf[name] == expected, "configure", "%s: plugin %s was configured %d time(s)", m.name.c_str(), name, a->conf[name]);
                expected = !strcmp(name, "resources") || !strcmp(name, "starter");
                EXPECT(a->pre[name] == expected, "configure", "%s: plugin %s was configured early %d time(s)", m.name.c_str(), name, a->pre[name]);
            }
        if (h == H_SHUTDOWN_FINISH) {
            for (auto &pt : a->points)
                for (auto &p : a->probes)
                    // (the subscriptions of the starter are handled by it)
                    EXPECT(pt->type == 0 || pt->unsub_seen[p->slot] == 1, "subscription", "%s: plugin %d has not seen the unsubscription of M%d", m.name.c_str(),
                           p->slot, pt->type);
        }
    };
    uint64_t blocked[2] = {0, 0};
    auto quiescent = [&] {
        for (auto &ap : actors) {
            auto &a = *ap;
            auto &m = *a.m;
            bool kids_init = true, kids_down = true, open[2] = {true, true};
            for (auto c : m.children) {
                kids_init &= w.mon(c).initialized() || w.mon(c).stopping();
                kids_down &= w.mon(c).down_done;
            }
            for (auto &p : a.probes)
                for (int i = 0; i < 2; ++i)
                    open[i] &= p->gate[i] || p->done[i];
            if (m.phase() == 1 && kids_init && !open[0])
                ++blocked[0];
            if (m.phase() == 4 && kids_down && !open[1])
                ++blocked[1];
            EXPECT(g_failed || m.phase() != 1 || !kids_init || !open[0], "prompt", "%s: all plugins are done, but the initialization is not complete", m.name.c_str());
            EXPECT(m.phase() != 4 || !kids_down || !open[1], "prompt", "%s: all plugins are done, but the shutdown is not complete", m.name.c_str());
            if (m.phase() == 3)
                for (auto &p : a.probes)
                    EXPECT(p->started == (p->start_on ? 1 : 0), "start", "%s: plugin %d is not told about the start", m.name.c_str(), p->slot);
            if (m.phase() <= 3)
                for (auto &pt : a.points) {
                    pt->confirmed = true;
                    for (auto &p : a.probes)
                        EXPECT(!pt->sub_due[p->slot] || pt->sub_seen[p->slot], "subscription", "%s: plugin %d has not seen the subscription to M%d",
                               m.name.c_str(), p->slot, pt->type);
                }
        }
    };
    sup_opts_t o;
    o.loc = w.new_loc();
    o.plain = src.chance(50);
    o.sync = src.chance(30);
    auto *root = make_root<sup_end_t, sup_mid_t>(o);
    g_root_addr = root->get_address();
    // opens a gate which is closed
    auto open_one = [&]() -> bool {
        std::vector<std::pair<actor_rec_t *, std::pair<probe_rec_t *, int>>> l;
        for (auto &a : actors)
            if (a->n && !a->m->down_done)
                for (auto &p : a->probes)
                    for (int i = 0; i < 2; ++i)
                        if (!p->gate[i] && !p->done[i])
                            l.push_back({a.get(), {p.get(), i}});
        if (l.empty())
            return false;
        auto &x = src.pick(l);
        auto &m = *x.first->m;
        int what = x.second.second;
        x.second.first->gate[what] = true;
        eng::trace("-- %s: plugin %d may finish its %s", m.name.c_str(), x.second.first->slot, what ? "shutdown" : "initialization");
        if (m.phase() == (what ? 4 : 1))
            w.in_loc(m.loc, [&] { x.first->n->go_on(what); });
        return true;
    };
    bool stopped = false;
    int steps = (int)src.range(5, 80);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({50, 25, 20, 3, 6});
        if (k == 0) {
            if (!w.step(LIMIT))
                k = 1;
        }
        if (k == 1)
            open_one();
        else if (k == 2 || k == 4) {
            std::vector<actor_rec_t *> l;
            for (auto &a : actors)
                if (a->n && a->m->operational())
                    l.push_back(a.get());
            if (l.empty())
                continue;
            auto *a = src.pick(l);
            if (k == 4) { // just asks to go on, nothing has changed
                continue;
            }
            if (src.chance(50))
                w.in_loc(a->m->loc, [&] {
                    auto *m = a->m->ptr;
                    if (auto *x = dynamic_cast<node_t<act_t> *>(m))
                        x->op();
                    else if (auto *y = dynamic_cast<node_t<sup_t> *>(m))
                        y->op();
                });
            else {
                auto &sup = *w.keep[0];
                auto addr = src.chance(60) ? a->m->ptr->get_address() : g_root_addr;
                w.in_loc(sup.loc->id, [&] {
                    if (src.chance(50))
                        sup.send<payload_t<0>>(addr, (uint64_t)i);
                    else
                        sup.send<payload_t<1>>(addr, (uint64_t)i);
                });
            }
        } else if (k == 3 && !stopped) {
            std::vector<mon_t *> l;
            for (auto &m : w.mons)
                if (m->phase() >= 1 && m->phase() <= 3)
                    l.push_back(m.get());
            if (!l.empty()) {
                auto *m = src.pick(l);
                g_failed |= m->phase() < 3;
                eng::trace("-- stop %s", m->name.c_str());
                w.in_loc(m->loc, [&] { m->ptr->do_shutdown(); });
            }
        }
        if (!w.any_work())
            quiescent();
    }
    if (src.chance(60)) // first everything becomes operational
        for (int i = 0; i < 400; ++i) {
            w.settle(LIMIT);
            quiescent();
            bool any = false;
            for (auto &a : actors)
                any |= a->m->phase() == 1;
            if (!any || !open_one())
                break;
        }
    auto &r0 = w.mon(0);
    if (!r0.stopping()) {
        eng::trace("-- stop the root");
        w.in_loc(r0.loc, [&] { r0.ptr->do_shutdown(); });
    }
    for (int i = 0; i < 1000; ++i) {
        if (src.chance(70)) {
            w.settle(LIMIT);
            quiescent();
        } else
            w.step(LIMIT);
        if (!open_one() && !w.any_work())
            break;
    }
    w.settle(LIMIT);
    quiescent();
    int probes = 0;
    for (auto &a : actors) {
        EXPECT(a->m->down_done, "hang", "%s is not shut down (phase %d)", a->m->name.c_str(), a->m->phase());
        probes += (int)a->probes.size();
        for (auto &pt : a->points)
            pt->info.reset();
        a->points.clear();
    }
    if (blocked[0])
        eng::label("initialization suspended");
    if (blocked[1])
        eng::label("shutdown suspended");
    eng::count("plugins", probes);
    if (probes >= 3 && (blocked[0] || blocked[1]))
        eng::nontrivial();
    g_root_addr = {};
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C24",
    "a random tree of actors and supervisors with 2-4 plugins of the user at various places of their plugin lists; the plugins draw "
    "their reactions, suspend the initialization or the shutdown, get a reaction turned on again, have own handlers and are configured "
    "in random phases; activation, order of polling, completion, promptness, start, (un)subscriptions and deactivation are checked; "
    "non-trivial: at least 3 such plugins, one of which suspended an initialization or a shutdown",
    30000, 1000000, 40, 8, 20, 0, run, nullptr};
