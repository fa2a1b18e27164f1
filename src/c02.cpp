// C02: a supervisor becomes initialized and operational only as a whole tree
#include "tree.h"
#include <set>
using namespace tree;

namespace {
void run(src_t &src) {
    world_t w(src);
    sys_t sys(src);
    S = &sys;
    sys.gen.max_nodes = (int)src.range(2, eng::thorough() ? 16 : 11);
    sys.gen.max_depth = (int)src.range(1, 4);
    sys.gen.spawners = src.chance(40);
    sys.gen.links = !sys.gen.spawners && src.chance(25);
    sys.traffic.on = src.chance(60);
    sys.traffic.budget = (int)src.range(0, 40);
    sys.traffic.w_stop = 0;
    bool rough = src.chance(30); // things fail and are stopped: the barriers hold nevertheless
    if (rough) {
        sys.gen.links = false;
        sys.gen.failures = src.chance(40);
        sys.gen.short_timeouts = src.chance(20);
        sys.gen.holds = src.chance(60);
        sys.traffic.w_stop = (uint32_t)src.range(0, 6);
    }
    std::set<int> failed; // reported to its supervisor
    std::map<int, std::vector<int>> barrier; // supervisor with synchronized start -> children at its init_finish
    uint64_t waited = 0, synced = 0;
    std::map<int, plan_t> plans; // outlive the actors
    auto plan_of = [&](int id) -> plan_t & { return plans[id]; };
    // is being shut down, though it might not know it yet
    auto going = [&](int id) {
        return failed.count(id) || w.mon(id).asked;
    };
    w.on_hook = [&](mon_t &m, hook_t h) {
        auto *nm = m.name.c_str();
        if (h == H_INIT_START) {
            plans[m.id] = sys.nodes[m.id]->plan;
            if (auto *sup = rough ? sys.nodes[m.id]->as_sup() : nullptr)
                sup->child_init_fn = [&](r::actor_base_t *a, const r::extended_error_ptr_t &ee) {
                    if (ee)
                        for (auto &x : w.mons)
                            if (x->ptr && x->ptr == a)
                                failed.insert(x->id);
                };
        }
        if (!rough && h == H_SHUTDOWN_START && !(plan_of(m.id).quit && m.n[H_ON_START] && w.now >= m.t_at[H_ON_START] + plan_of(m.id).quit))
            eng::fail("down", "%s goes down though nothing failed", nm);
        if (h == H_INIT_FINISH && m.sup) {
            for (auto c : m.children)
                EXPECT(w.mon(c).initialized() || w.mon(c).stopping() || (rough && going(c)), "too-early", "%s is initialized before its child %s is", nm, w.mon(c).name.c_str());
            waited += m.children.size();
            if (plan_of(m.id).sync)
                barrier[m.id] = m.children;
        }
        if (h == H_ON_START) {
            EXPECT(m.initialized(), "start-first", "%s is started before it is initialized", nm);
            if (m.parent >= 0 && plan_of(m.parent).sync) {
                auto &p = w.mon(m.parent);
                auto it = barrier.find(m.parent);
                EXPECT(it != barrier.end(), "sync", "%s is started before its supervisor %s is initialized (synchronized start)", nm, p.name.c_str());
                if (std::find(it->second.begin(), it->second.end(), m.id) != it->second.end()) {
                    EXPECT(p.n[H_ON_START], "sync", "%s is started before its supervisor %s (synchronized start)", nm, p.name.c_str());
                    for (auto c : it->second)
                        EXPECT(w.mon(c).initialized() || (rough && (w.mon(c).stopping() || going(c))), "sync", "%s is started before its sibling %s is initialized", nm, w.mon(c).name.c_str());
                    ++synced;
                }
            }
        }
    };
    // nothing is pending: whoever may be started has been started
    auto quiescent = [&] {
        for (auto &m : w.mons) {
            if (!m->initialized() || m->n[H_ON_START] || m->stopping())
                continue;
            bool sync = m->parent >= 0 && plan_of(m->parent).sync;
            if (!sync || w.mon(m->parent).n[H_ON_START])
                eng::fail("not-started", "%s is initialized but is not started", m->name.c_str());
        }
        for (auto &m : w.mons) {
            if (!m->sup || m->initialized())
                continue;
            // own delay is over and every child is initialized
            bool ready = true;
            auto &p = plan_of(m->id);
            auto &n = *sys.nodes[m->id];
            if (p.delay && n.res_at >= 0 && w.now <= (uint64_t)n.res_at + p.delay)
                ready = false;
            for (auto c : m->children)
                ready &= w.mon(c).initialized();
            if (p.links)
                ready = false;
            if (ready)
                eng::fail("not-initialized", "%s is not initialized though everything below it is", m->name.c_str());
        }
    };
    if (rough) {
        chaos(sys);
        eng::label("with failures and shutdowns");
        eng::count("children waited for", waited);
        eng::count("synchronized starts", synced);
        if (w.mons.size() >= 3 && waited)
            eng::nontrivial();
        w.on_hook = {};
        w.keep.clear();
        w.ctxs.clear();
        S = nullptr;
        return;
    }
    int budget = sys.gen.max_nodes;
    int nroots = src.chance(20) ? 2 : 1;
    for (int i = 0; i < nroots; ++i)
        sys.make_root(sys.make_sup_plan(0, budget));
    int steps = (int)src.range(0, 120);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({70, 10, sys.traffic.on ? 20u : 0u});
        if (k == 1)
            sys.late_child();
        else if (k == 2)
            sys.external_op();
        else if (!w.step(LIMIT))
            break;
        if (!w.any_work())
            quiescent();
    }
    sys.traffic.on = false;
    w.settle(LIMIT);
    quiescent();
    if (src.chance(50)) { // children of operational supervisors
        for (int i = (int)src.range(1, 3); i > 0; --i)
            sys.late_child();
        w.settle(LIMIT);
        quiescent();
    }
    for (auto &m : w.mons)
        EXPECT(m->operational() || (plan_of(m->id).quit && m->down()), "not-operational", "%s did not become operational (phase %d)", m->name.c_str(), m->phase());
    for (auto &e : w.errors)
        eng::fail("error", "an error was reported: %s", e.msg.c_str());
    int delayed = 0;
    for (auto &p : plans)
        delayed += p.second.delay > 0;
    if (synced)
        eng::label("synchronized start");
    eng::count("children waited for", waited);
    eng::count("synchronized starts", synced);
    if (w.mons.size() >= 3 && delayed)
        eng::nontrivial();
    w.on_hook = {};
    for (auto id : sys.roots)
        w.in_loc(w.mon(id).loc, [&] { sys.nodes[id]->stop(0); });
    w.settle(LIMIT);
    w.keep.clear();
    w.ctxs.clear();
    S = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C02",
    "a random tree (1-2 roots, nested supervisors in the same or in own localities, each with or without synchronized start) "
    "whose actors initialize immediately or after a random delay, with children created (or spawned, and respawned after they quit) at random moments, random interleaving "
    "of localities and timers, and traffic; nothing fails in 7 of 10 cases; in the others actors fail, hold resources, are stopped in between; non-trivial: at least 3 actors, some with a "
    "delayed initialization (or, if something fails, some supervisor was initialized with children)",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
