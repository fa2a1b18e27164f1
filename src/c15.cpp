// C15: held resources suspend initialization and shutdown until all are released
#include "sim.h"
using namespace sim;

namespace {
constexpr int IDS = 4;
constexpr uint64_t LIMIT = 500 * SEC;

struct model_t {
    int held[IDS] = {0};
    bool closed = false; // the last one was released during the shutdown: it goes on
    bool sub = false; // subscribes in the starter
    uint64_t acquired = 0, blocked_init = 0, blocked_shutdown = 0;
    r::plugin::resources_plugin_t *res = nullptr;
    int sum() const { return held[0] + held[1] + held[2] + held[3]; }
};
std::map<int, model_t> *M;
int g_budget; // how many more resources may be acquired from hooks
r::plugin::resource_id_t RID[IDS];

template <typename Base> struct node_t : Base {
    model_t &md;
    int kids = 0, depth = 0;
    template <typename C> explicit node_t(C &cfg) : Base(cfg), md{(*M)[Base::m->id]} {
        md.sub = W->src.chance(50);
        depth = Base::m->tag;
        if constexpr (std::is_base_of_v<sup_t, Base>)
            kids = (int)W->src.range(0, 3);
    }
    void check() {
        auto *res = Base::res();
        for (int i = 0; i < IDS; ++i)
            EXPECT(res->has(RID[i]) == (unsigned)md.held[i], "count", "%s: has(%d) is %u, expected %d", Base::m->name.c_str(), i, res->has(RID[i]), md.held[i]);
        EXPECT(res->has_any() == (md.sum() > 0), "count", "%s: has_any() is wrong, %d are held", Base::m->name.c_str(), md.sum());
    }
    void acquire() {
        if (md.closed)
            return;
        int id = (int)W->src.draw(IDS);
        static const int many[] = {127, 128, 255, 256, 257, 65536};
        int n = W->src.chance(3) ? many[W->src.draw(eng::thorough() ? 6 : 5)] : 1;
        md.acquired += n;
        eng::trace("  %s acquires %d%s", Base::m->name.c_str(), id, n > 1 ? (" " + std::to_string(n) + " times").c_str() : "");
        if (n > 1)
            eng::label("acquired many times");
        while (n--) {
            ++md.held[id];
            Base::res()->acquire(RID[id]);
        }
        check();
    }
    void release() {
        std::vector<int> ids;
        for (int i = 0; i < IDS; ++i)
            if (md.held[i])
                ids.push_back(i);
        if (ids.empty())
            return;
        int id = W->src.pick(ids);
        int n = md.held[id] < 20 || W->src.chance(10) ? 1 : md.held[id] - (int)W->src.draw(3);
        eng::trace("  %s releases %d%s", Base::m->name.c_str(), id, n > 1 ? (" " + std::to_string(n) + " times").c_str() : "");
        while (n--) {
            --md.held[id];
            bool more = md.sum() > 0;
            md.closed |= !more && Base::m->stopping();
            auto *name = Base::m->name.c_str();
            bool r = Base::res()->release(RID[id]);
            EXPECT(r == more, "count", "%s: release returned %d, %d are held", name, r, md.sum());
        }
    }
    void some(const char *where, bool may_acquire) {
        if (!W->src.chance(30))
            return;
        eng::trace("  (%s)", where);
        int n = (int)W->src.range(1, 3);
        for (int i = 0; i < n; ++i) {
            if (may_acquire && g_budget > 0 && W->src.chance(70)) {
                --g_budget;
                acquire();
            } else if (md.sum())
                release();
        }
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::child_manager_plugin_t>([&](auto &) {
            if constexpr (std::is_base_of_v<sup_t, Base>)
                for (int i = 0; i < kids; ++i) {
                    if (depth < 2 && W->src.chance(25)) {
                        sup_opts_t o;
                        o.loc = W->src.chance(30) ? W->new_loc() : Base::loc;
                        o.tag = depth + 1;
                        o.sync = W->src.chance(30);
                        make_child_sup<node_t<sup_t>, node_t<sup_plain_t>>(*this, o);
                    } else
                        make_actor<node_t<act_t>>(*this);
                }
        });
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &pl) {
            md.res = &pl;
            some("configuration of the resources", true);
        });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            if (md.sub)
                pl.subscribe_actor(&node_t::on_msg);
            some("configuration of the starter", true);
        });
    }
    void on_msg(msg_t<0> &) noexcept { some("message handler", Base::m->phase() < 4 || md.sum()); }
    void init_finish() noexcept override {
        Base::init_finish();
        some("after init_finish", true);
    }
    void on_start() noexcept override {
        some("on_start", true);
        Base::on_start();
        some("after on_start", true);
    }
    void shutdown_start() noexcept override {
        some("shutdown_start", true);
        Base::shutdown_start();
        some("after shutdown_start", true);
    }
};
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;
using anode_t = node_t<act_t>;

struct op_i {
    static void ext(mon_t &m, bool only_release) {
        auto f = [&](auto *n) {
            bool live_kids = false;
            for (auto c : m.children)
                live_kids |= !W->mon(c).down_done;
            bool may = m.phase() <= 3 || n->md.sum() > 0 || live_kids;
            if (!only_release && may && W->src.chance(45))
                n->acquire();
            else
                n->release();
        };
        W->in_loc(m.loc, [&] {
            if (auto *a = dynamic_cast<anode_t *>(m.ptr))
                f(a);
            else if (auto *s = dynamic_cast<snode_t *>(m.ptr))
                f(s);
            else if (auto *s = dynamic_cast<spnode_t *>(m.ptr))
                f(s);
        });
    }
};

void run(src_t &src) {
    world_t w(src);
    std::map<int, model_t> models;
    M = &models;
    g_budget = (int)src.range(0, 12);
    for (int i = 0; i < IDS; ++i)
        RID[i] = i;
    if (src.chance(25)) {
        RID[0] = src.draw(40);
        for (int i = 1; i < IDS; ++i)
            RID[i] = RID[i - 1] + 1 + src.draw(i == 3 ? 300 : 40);
        if (src.chance(50))
            std::swap(RID[0], RID[3]);
    }
    w.on_hook = [&](mon_t &m, hook_t h) {
        auto &md = models[m.id];
        if (h == H_INIT_FINISH)
            EXPECT(md.sum() == 0, "init", "%s completes its initialization while it holds %d resources", m.name.c_str(), md.sum());
        if (h == H_SHUTDOWN_FINISH)
            EXPECT(md.sum() == 0, "shutdown", "%s completes its shutdown while it holds %d resources", m.name.c_str(), md.sum());
    };
    auto quiescent = [&] {
        for (auto &m : w.mons) {
            auto &md = models[m->id];
            bool kids_init = true, kids_down = true;
            for (auto c : m->children) {
                kids_init &= w.mon(c).initialized() || w.mon(c).stopping();
                kids_down &= w.mon(c).down_done;
            }
            if (m->phase() == 1 && kids_init) {
                if (md.sum())
                    ++md.blocked_init;
                else
                    eng::fail("prompt", "%s holds nothing but does not complete its initialization", m->name.c_str());
            }
            if (m->phase() == 4 && kids_down) {
                if (md.sum())
                    ++md.blocked_shutdown;
                else
                    eng::fail("prompt", "%s holds nothing but does not complete its shutdown", m->name.c_str());
            }
        }
    };
    sup_opts_t o;
    o.loc = w.new_loc();
    o.plain = src.chance(50);
    o.sync = src.chance(30);
    auto *root = make_root<snode_t, spnode_t>(o);
    (void)root;
    auto random_actor = [&]() -> mon_t * {
        std::vector<mon_t *> l;
        for (auto &m : w.mons)
            if (m->phase() >= 1 && !m->down_done && m->ptr && models[m->id].res)
                l.push_back(m.get());
        return l.empty() ? nullptr : src.pick(l);
    };
    int steps = (int)src.range(5, 80);
    bool stopped = false;
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({50, 35, 12, 3});
        if (k == 0) {
            if (!w.step(LIMIT))
                k = 1;
        }
        if (k == 1) {
            if (auto *m = random_actor())
                op_i::ext(*m, false);
        } else if (k == 2) {
            auto *m = random_actor();
            if (m && m->ptr) {
                auto &sup = *w.keep[0];
                w.in_loc(sup.loc->id, [&] { sup.send<payload_t<0>>(m->ptr->get_address(), (uint64_t)i); });
            }
        } else if (k == 3 && !stopped) {
            // stopping an actor which is not started yet would fail its supervisor
            std::vector<mon_t *> l;
            for (auto &m : w.mons)
                if (m->operational() || (m->parent < 0 && m->phase() >= 1 && !m->stopping()))
                    l.push_back(m.get());
            if (!l.empty()) {
                auto *m = src.pick(l);
                eng::trace("-- stop %s", m->name.c_str());
                w.in_loc(m->loc, [&] { m->ptr->do_shutdown(); });
            }
        }
        if (!w.any_work())
            quiescent();
    }
    if (src.chance(70)) { // first everything becomes operational
        for (int i = 0; i < 400; ++i) {
            w.settle(LIMIT);
            quiescent();
            mon_t *m = nullptr;
            for (auto &x : w.mons)
                if (models[x->id].sum() && x->phase() == 1)
                    m = x.get();
            if (!m)
                break;
            op_i::ext(*m, true);
        }
        w.settle(LIMIT);
        quiescent();
    }
    auto &r0 = w.mon(0);
    if (!r0.stopping()) {
        eng::trace("-- stop the root");
        w.in_loc(r0.loc, [&] { r0.ptr->do_shutdown(); });
    }
    g_budget = (int)src.range(0, 5);
    for (int i = 0; i < 1000; ++i) {
        if (src.chance(70)) {
            w.settle(LIMIT);
            quiescent();
        } else
            w.step(LIMIT);
        std::vector<mon_t *> l;
        for (auto &x : w.mons)
            if (models[x->id].sum() && !x->down_done && x->ptr)
                l.push_back(x.get());
        if (l.empty()) {
            w.settle(LIMIT);
            bool more = false;
            for (auto &x : w.mons)
                more |= models[x->id].sum() && !x->down_done;
            if (!more)
                break;
            continue;
        }
        op_i::ext(*src.pick(l), i > 20 || src.chance(70));
    }
    w.settle(LIMIT);
    quiescent();
    uint64_t bi = 0, bs = 0, acq = 0;
    for (auto &m : w.mons) {
        EXPECT(m->down_done, "hang", "%s holds nothing but is not shut down (phase %d)", m->name.c_str(), m->phase());
        bi += models[m->id].blocked_init;
        bs += models[m->id].blocked_shutdown;
        acq += models[m->id].acquired;
    }
    if (bi)
        eng::label("initialization suspended");
    if (bs)
        eng::label("shutdown suspended");
    eng::count("acquired", acq);
    if (acq >= 2 && (bi || bs))
        eng::nontrivial();
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C15",
    "a random tree whose actors and supervisors acquire and release up to 4 kinds of resources in random numbers and order: in "
    "their configuration, hooks, message handlers and from outside at any moment of their life; counters, completion of "
    "initialization/shutdown and promptness are compared with a counting model; non-trivial: at least 2 resources were "
    "acquired and an initialization or a shutdown was suspended by one",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
