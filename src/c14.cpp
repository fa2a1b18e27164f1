// C14: failures escalate exactly along the escalating flags, with the right reasons
#include "tree.h"
using namespace tree;

namespace {
bool leads_to(const r::extended_error_ptr_t &reason, const r::extended_error_ptr_t &cause) {
    for (auto e = reason; e; e = e->next)
        if (e == cause)
            return true;
    return false;
}

void run(src_t &src) {
    world_t w(src);
    sys_t sys(src);
    S = &sys;
    sys.gen.max_nodes = (int)src.range(3, eng::thorough() ? 18 : 12);
    sys.gen.max_depth = (int)src.range(2, 5);
    sys.gen.flags = true;
    sys.gen.delays = src.chance(30);
    sys.gen.holds = src.chance(30);
    if (src.chance(15)) { // failures of the initialization: they have a cause
        sys.gen.flags = src.chance(50);
        sys.gen.failures = true;
        sys.gen.short_timeouts = src.chance(60);
        sys.traffic.w_stop = (uint32_t)src.range(0, 4);
        uint64_t causes = 0;
        w.on_hook = [&](mon_t &m, hook_t h) {
            if (h != H_SHUTDOWN_FINISH)
                return;
            EXPECT(m.reason, "reason", "%s has no shutdown reason", m.name.c_str());
            for (auto e = m.reason; e; e = e->next)
                if (e->ec == r::make_error_code(r::shutdown_code_t::init_failed) || e->ec == r::make_error_code(r::shutdown_code_t::child_init_failed)) {
                    ++causes;
                    EXPECT(e->next, "init-reason", "the reason of %s does not tell why the initialization failed: %s", m.name.c_str(), m.reason->message().c_str());
                }
        };
        chaos(sys);
        if (causes)
            eng::label("initialization failed");
        if (causes && w.mons.size() >= 4)
            eng::nontrivial();
        w.on_hook = {};
        w.keep.clear();
        w.ctxs.clear();
        S = nullptr;
        return;
    }
    int budget = sys.gen.max_nodes;
    sys.make_root(sys.make_sup_plan(0, budget));
    w.settle(LIMIT);
    std::map<int, plan_t> plans;
    for (auto *n : sys.nodes) {
        plans[n->mo().id] = n->plan;
        EXPECT(n->mo().operational(), "setup", "%s is not operational", n->mo().name.c_str());
    }
    struct stop_t {
        int id;
        r::extended_error_ptr_t reason; // null: none given
    };
    std::set<int> down;
    int cascades = 0, contained = 0;
    int rounds = (int)src.range(1, 4);
    for (int round = 0; round < rounds; ++round) {
        std::vector<int> live;
        for (auto &m : w.mons)
            if (m->operational())
                live.push_back(m->id);
        if (live.empty())
            break;
        int n = (int)src.weighted({70, 20, 10}) + 1;
        std::vector<stop_t> stops;
        bool abnormal = false;
        for (int i = 0; i < n; ++i) {
            // leaves are more interesting than the roots
            int t = src.pick(live);
            for (int k = 0; k < 3 && w.mon(t).sup; ++k)
                t = src.pick(live);
            if (i > 0 && src.chance(40))
                t = stops[0].id; // shutdown is requested twice
            stop_t s{t, {}};
            auto *nd = sys.nodes[t];
            auto mk = [&](std::error_code ec, r::extended_error_ptr_t next) {
                return r::make_error("given by the test", ec, next);
            };
            auto kind = src.draw(5);
            if (kind == 1)
                s.reason = mk(std::make_error_code(std::errc::io_error), {});
            else if (kind == 2)
                s.reason = mk(r::make_error_code(r::shutdown_code_t::normal), {});
            else if (kind == 3)
                s.reason = mk(r::make_error_code(r::error_code_t::request_timeout), mk(std::make_error_code(std::errc::broken_pipe), {}));
            else if (kind == 4) // an error caused by a normal end is not an error
                s.reason = mk(r::make_error_code(r::shutdown_code_t::child_down), mk(r::make_error_code(r::shutdown_code_t::normal), {}));
            abnormal |= s.reason && s.reason->root()->ec;
            eng::trace("-- stop %s: %s", w.mon(t).name.c_str(), s.reason ? s.reason->message().c_str() : "no reason");
            w.in_loc(w.mon(t).loc, [&] { nd->actor().do_shutdown(s.reason); });
            stops.push_back(s);
        }
        w.settle(w.now + LIMIT);
        for (auto &m : w.mons)
            if (m->down() && !down.count(m->id)) {
                EXPECT(m->first_reason && m->reason, "reason", "%s has no shutdown reason", m->name.c_str());
                EXPECT(m->reason == m->first_reason, "first-reason", "the shutdown reason of %s was (%s), but became (%s)", m->name.c_str(),
                       m->first_reason->message().c_str(), m->reason->message().c_str());
            }
        // the reasons that may be the root cause, by actor
        bool single = true;
        for (auto &s : stops)
            single &= s.id == stops[0].id;
        // expected set: downwards everything, upwards along the flags
        auto before = down;
        std::function<void(int, bool)> take = [&](int id, bool error) {
            if (!down.insert(id).second)
                return;
            for (auto c : w.mon(id).children)
                take(c, error);
            auto p = w.mon(id).parent;
            if (p >= 0) {
                auto &pl = plans[id];
                if (!down.count(p) && (pl.autoshutdown || (pl.escalate && error))) {
                    ++cascades;
                    take(p, error);
                } else if (!down.count(p))
                    ++contained;
            }
        };
        if (single) {
            auto &first = stops[0];
            take(first.id, first.reason && first.reason->root()->ec);
            for (auto &m : w.mons) {
                bool want = down.count(m->id) > 0;
                EXPECT(want == m->down(), "closure", "%s %s (stopped: %s)", m->name.c_str(),
                       want ? "has to be shut down by the cascade but is not" : "must not be affected but it is down", w.mon(first.id).name.c_str());
                EXPECT(m->down() || m->operational(), "closure", "%s is left in phase %d", m->name.c_str(), m->phase());
                if (!want || before.count(m->id))
                    continue;
                EXPECT(m->reason, "reason", "%s has no shutdown reason", m->name.c_str());
                if (first.reason)
                    EXPECT(leads_to(m->reason, first.reason), "reason", "the reason of %s does not lead to the original one (%s) but: %s",
                           m->name.c_str(), first.reason->message().c_str(), m->reason->message().c_str());
                else
                    EXPECT(!m->reason->root()->ec, "reason", "%s: normal shutdown is recorded as %s", m->name.c_str(), m->reason->message().c_str());
                // one level of explanation per hop
                if (m->id != first.id) {
                    auto up = w.mon(first.id).parent == m->id || false;
                    auto esc = r::make_error_code(r::error_code_t::failure_escalation);
                    auto cd = r::make_error_code(r::shutdown_code_t::child_down);
                    if (up && m->parent < 0) // the root got the reason from its child directly
                        EXPECT(m->reason->ec == esc || m->reason->ec == cd, "reason", "%s was taken down by its child but says: %s", m->name.c_str(),
                               m->reason->message().c_str());
                    if (m->parent >= 0)
                        EXPECT(m->reason->ec == r::make_error_code(r::shutdown_code_t::supervisor_shutdown), "reason",
                               "%s was told to go by its supervisor but says: %s", m->name.c_str(), m->reason->message().c_str());
                }
            }
            eng::label("single cause");
        } else {
            // several causes at once: the set with the most and with the least escalation
            auto run_all = [&](bool most) {
                down = before;
                for (bool again = true; again;) {
                    again = false;
                    for (auto &s : stops)
                        if (!down.count(s.id)) {
                            bool own_error = s.reason && s.reason->root()->ec;
                            bool same_twice = false; // ambiguous when another cause reaches it first
                            for (auto &o : stops)
                                same_twice |= &o != &s;
                            take(s.id, most ? (own_error || (same_twice && abnormal)) : own_error && !same_twice);
                            again = true;
                        }
                }
                return down;
            };
            auto lo = run_all(false), hi = run_all(true);
            down = before;
            for (auto &m : w.mons) {
                if (lo.count(m->id))
                    EXPECT(m->down(), "closure", "%s has to be down", m->name.c_str());
                if (!hi.count(m->id))
                    EXPECT(m->operational(), "closure", "%s must not be affected", m->name.c_str());
                EXPECT(m->down() || m->operational(), "closure", "%s is left in phase %d", m->name.c_str(), m->phase());
                if (m->down())
                    down.insert(m->id);
                if (m->down() && !before.count(m->id)) {
                    bool ok = !m->reason->root()->ec;
                    for (auto &s : stops)
                        ok |= s.reason && leads_to(m->reason, s.reason);
                    EXPECT(ok, "reason", "the reason of %s leads to none of the causes: %s", m->name.c_str(), m->reason->message().c_str());
                }
            }
            eng::label("several causes at once");
        }
    }
    if (cascades)
        eng::label("escalated to a supervisor");
    if (contained)
        eng::label("not escalated");
    eng::count("escalations", cascades);
    eng::count("contained", contained);
    if (w.mons.size() >= 4 && (cascades || contained))
        eng::nontrivial();
    for (auto id : sys.roots)
        if (sys.nodes[id])
            w.in_loc(w.mon(id).loc, [&] { sys.nodes[id]->stop(0); });
    w.settle(w.now + LIMIT);
    w.keep.clear();
    w.ctxs.clear();
    S = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C14",
    "a random operational tree with random escalate_failure/autoshutdown flags; rounds of one or several shutdowns (no reason, "
    "normal, error, chains of errors, repeated) of random actors; the set of actors that go down is the closure computed from the "
    "flags, their reasons have to lead to the cause; or a tree with failing initializations, whose reasons have a cause; non-trivial: at least 4 actors and a flag "
    "decision was taken (an initialization failed)",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
