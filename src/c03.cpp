// C03: a child failing to initialize is handled as the supervisor's policy says
#include "tree.h"
using namespace tree;

namespace {
constexpr uint64_t INF = (uint64_t)-1;

struct out_t {
    uint64_t ok = INF;    // initialized at
    uint64_t fail = INF;  // failed to initialize at
    bool timeout = false; // by a timeout
    uint64_t start = INF, kill = INF;
};

struct model_t {
    std::map<int, out_t> out;
    bool pinned = false; // shutdown_failed takes the supervisor down too (known finding)
    bool tie = false;
    bool any_timeout = false;
    bool differs = false; // a shutdown_failed supervisor had a failed child
    std::function<std::vector<int>(int)> kids;
    std::function<plan_t &(int)> plan;
    std::function<std::vector<int>(int)> spawners; // of a supervisor
    std::vector<std::string> problems;
    std::set<int> instances; // the expected ones

    bool before(uint64_t a, uint64_t b) {
        if (a == b && a != INF)
            tie = true;
        return a < b;
    }
    // the instances of a spawner, as long as the supervisor is there
    struct inst_t {
        uint64_t at;
        out_t o;
    };
    std::vector<inst_t> sequence(const plan_t &sp, uint64_t t0, bool sync, uint64_t parent_start) {
        std::vector<inst_t> v;
        auto at = t0;
        for (size_t i = 0; i < sp.attempts; ++i) {
            auto &p = sp.inst[std::min(i, sp.inst.size() - 1)];
            inst_t n{at, {}};
            auto limit = at + p.init_timeout;
            auto ok = p.fail == OK ? at + p.delay : INF;
            auto bad = p.fail != OK && p.fail != FAIL_TIMEOUT ? at + p.fail_at : INF;
            if (before(ok, limit)) {
                n.o.ok = ok;
                n.o.start = !sync ? ok : parent_start == INF ? INF : std::max(ok, parent_start);
                if (n.o.start != INF && p.quit)
                    n.o.kill = n.o.start + p.quit;
            } else {
                n.o.timeout = !before(bad, limit);
                n.o.kill = n.o.fail = std::min(bad, limit);
            }
            v.push_back(n);
            if (n.o.kill == INF)
                break;
            if (n.o.kill - at == sp.period)
                tie = true;
            at = n.o.kill - at >= sp.period ? n.o.kill : n.o.kill + sp.period;
        }
        return v;
    }
    // the first moment when no instance is initializing
    uint64_t free_at(const std::vector<inst_t> &v, uint64_t t) {
        for (bool again = true; again && t != INF;) {
            again = false;
            for (auto &n : v) {
                auto e = std::min(n.o.ok, n.o.fail);
                if (n.at == e)
                    continue;
                if (n.at <= t && t < e) {
                    if (n.at == t && t != v[0].at)
                        tie = true;
                    t = e;
                    again = true;
                }
            }
        }
        return t;
    }
    void init(int id, uint64_t t0) {
        auto &p = plan(id);
        auto &o = out[id];
        o = out_t();
        uint64_t limit = t0 + p.init_timeout;
        uint64_t ready = t0, child_fail = INF;
        for (auto k : kids(id)) {
            init(k, t0);
            auto &c = out[k];
            if (c.fail != INF) {
                if (p.policy == r::supervisor_policy_t::shutdown_failed && !pinned)
                    ready = std::max(ready, c.fail);
                else if (before(c.fail, child_fail))
                    child_fail = c.fail;
            } else
                ready = std::max(ready, c.ok);
        }
        std::vector<inst_t> inst;
        for (auto s : spawners(id)) {
            auto v = sequence(*spawner_plan(s), t0, p.sync, INF);
            inst.insert(inst.end(), v.begin(), v.end());
        }
        uint64_t done = INF, self_fail = INF;
        if (child_fail == INF) {
            ready = free_at(inst, ready);
            if (p.fail == OK)
                done = free_at(inst, ready + p.delay);
            else if (p.fail != FAIL_TIMEOUT)
                self_fail = ready + p.fail_at;
        }
        for (auto &n : inst)
            if (n.o.fail <= done && before(n.o.fail, child_fail))
                child_fail = n.o.fail;
        if (child_fail == done)
            done = INF; // had to wait for the one which failed
        uint64_t f = limit;
        o.timeout = true;
        if (before(child_fail, f)) {
            f = child_fail;
            o.timeout = false;
        }
        if (before(self_fail, f)) {
            f = self_fail;
            o.timeout = false;
        }
        if (before(done, f)) {
            o.ok = done;
            o.timeout = false;
        } else
            o.fail = f;
    }
    std::function<const plan_t *(int)> spawner_plan;
    std::function<std::vector<int>(int)> spawned; // the instances there were
    // a subtree that is not there any more does not fail later
    void finish(int id, uint64_t kill, uint64_t parent_start, bool parent_sync) {
        auto &p = plan(id);
        auto &o = out[id];
        o.start = INF;
        if (o.ok != INF) {
            o.start = parent_sync ? (parent_start == INF ? INF : std::max(o.ok, parent_start)) : o.ok;
            if (o.start != INF && !before(o.start, kill))
                o.start = INF;
        }
        uint64_t q = o.start != INF && p.quit ? o.start + p.quit : INF;
        before(q, kill);
        o.kill = std::min(kill, std::min(o.fail, q));
        if (o.fail == o.kill && o.timeout)
            any_timeout = true;
        for (auto k : kids(id)) {
            if (out[k].fail != INF && out[k].fail <= o.kill && p.policy == r::supervisor_policy_t::shutdown_failed)
                differs = true;
            finish(k, o.kill, o.start, p.sync);
        }
        for (auto s : spawners(id)) {
            auto v = sequence(*spawner_plan(s), W->mon(id).t_at[H_INIT_START], p.sync, o.start);
            auto ids = spawned(s);
            for (size_t i = 0; i < v.size(); ++i) {
                auto &n = v[i];
                bool fatal = i > 0 && o.kill != INF && v[i - 1].o.fail == o.kill; // its failure took the supervisor down
                if (fatal || !before(n.at, o.kill))
                    break;
                if (i >= ids.size()) {
                    problems.push_back("instance " + std::to_string(i) + " of a spawner of " + W->mon(id).name + " is missing");
                    break;
                }
                auto &mo = W->mon(ids[i]);
                if (mo.t_at[H_CTOR] != n.at)
                    problems.push_back(mo.name + " (instance " + std::to_string(i) + " of a spawner) was created at " +
                                       std::to_string(mo.t_at[H_CTOR]) + " us, expected at " + std::to_string(n.at));
                if (n.o.start != INF && !before(n.o.start, o.kill))
                    n.o.start = INF;
                if (n.o.fail != o.kill)
                    before(n.o.kill, o.kill);
                if (n.o.fail <= o.kill && n.o.fail != INF && n.o.timeout)
                    any_timeout = true;
                n.o.kill = std::min(n.o.kill, o.kill);
                out[ids[i]] = n.o;
                instances.insert(ids[i]);
            }
            for (auto i : ids)
                if (!instances.count(i) && !(W->mon(i).t_at[H_CTOR] == o.kill && W->mon(i).down()))
                    problems.push_back(W->mon(i).name + " should not have been spawned");
        }
    }
};

std::string compare(world_t &w, sys_t &, model_t &m, int root) {
    std::string why;
    std::function<void(int)> walk = [&](int id) {
        auto &o = m.out[id];
        auto &n = w.mon(id);
        char b[300] = "";
        auto want_init = o.ok != INF && o.ok < o.kill;
        if (m.pinned && m.plan(id).policy == r::supervisor_policy_t::shutdown_failed && n.initialized() &&
            n.t_at[H_INIT_FINISH] == o.kill)
            want_init = true, o.ok = o.kill; // it finishes its initialization while it is being shut down
        auto want_start = o.start != INF && o.start < o.kill;
        auto ms = [](uint64_t v) { return v == INF ? -1.0 : v / 1000.0; };
        if (o.kill == INF && !n.operational())
            snprintf(b, sizeof b, "%s has to be operational but it is in phase %d", n.name.c_str(), n.phase());
        else if (o.kill != INF && !n.down())
            snprintf(b, sizeof b, "%s has to be shut down (at %.3f ms) but it is in phase %d", n.name.c_str(), ms(o.kill), n.phase());
        else if (o.kill != INF && n.t_at[H_SHUTDOWN_START] != o.kill)
            snprintf(b, sizeof b, "%s has to go down at %.3f ms, went at %.3f ms", n.name.c_str(), ms(o.kill), ms(n.t_at[H_SHUTDOWN_START]));
        else if (want_init != n.initialized() || (want_init && n.t_at[H_INIT_FINISH] != o.ok))
            snprintf(b, sizeof b, "%s: initialization has to finish at %.3f ms (-1: never), it did %u times, at %.3f ms", n.name.c_str(),
                     want_init ? ms(o.ok) : -1, (unsigned)n.n[H_INIT_FINISH], ms(n.t_at[H_INIT_FINISH]));
        else if (want_start != (n.n[H_ON_START] > 0) || (want_start && n.t_at[H_ON_START] != o.start))
            snprintf(b, sizeof b, "%s: start expected at %.3f ms (-1: never), it did %u times, at %.3f ms", n.name.c_str(),
                     want_start ? ms(o.start) : -1, (unsigned)n.n[H_ON_START], ms(n.t_at[H_ON_START]));
        if (*b && why.empty())
            why = b;
        if (!m.instances.count(id))
            for (auto k : m.kids(id))
                walk(k);
    };
    walk(root);
    if (why.empty() && m.problems.size())
        why = m.problems[0];
    for (auto id : m.instances)
        walk(id);
    return why;
}

void add_quits(src_t &src, plan_t &p, bool root) {
    if (!root && src.chance(15))
        p.quit = src.range(1, 60) * MS + 13;
    for (auto &k : p.kids)
        if (k.inst.empty())
            add_quits(src, k, false);
}
// supervisors that are initializing for long enough to see several instances
void slow_down(src_t &src, plan_t &p) {
    for (auto &k : p.kids) {
        slow_down(src, k);
        if (k.inst.size() && p.fail == OK && p.init_timeout == FAR && src.chance(60)) {
            p.delay = src.range(60, 250) * MS;
            p.sync = false;
        }
    }
}
// microseconds that make ties unlikely
void jitter(src_t &src, plan_t &p) {
    if (p.delay)
        p.delay += src.draw(200);
    p.fail_at += src.draw(200);
    for (auto &k : p.kids)
        jitter(src, k);
    for (auto &k : p.inst) {
        jitter(src, k);
        k.quit += k.quit ? src.draw(200) : 0;
    }
    if (p.inst.size()) {
        p.restart = r::restart_policy_t::always;
        p.escalate = false;
        p.period += p.period ? src.draw(200) : 0;
    }
}
int count_fails(const plan_t &p);
// a failing child of a shutdown_failed supervisor is a known finding, it has cases of its own
void settle_policy(plan_t &p) {
    if (count_fails(p))
        p.policy = r::supervisor_policy_t::shutdown_self;
    for (auto &k : p.kids)
        settle_policy(k);
}
int count_fails(const plan_t &p) {
    int n = p.fail != OK || p.init_timeout != FAR;
    for (auto &k : p.kids)
        n += count_fails(k);
    for (auto &k : p.inst)
        n += count_fails(k);
    return n;
}

void run(src_t &src) {
    world_t w(src);
    sys_t sys(src);
    S = &sys;
    sys.gen.max_nodes = (int)src.range(2, eng::thorough() ? 16 : 11);
    sys.gen.max_depth = (int)src.range(1, 4);
    sys.gen.failures = src.chance(85);
    sys.gen.fail_pct = (uint32_t)src.pick(std::vector<int>{10, 25, 50});
    sys.gen.short_timeouts = src.chance(40);
    sys.gen.spawners = src.chance(40);
    int budget = sys.gen.max_nodes;
    // only the later instances of spawned actors fail
    bool calm = sys.gen.spawners && src.chance(50);
    if (calm)
        sys.gen.failures = sys.gen.short_timeouts = false;
    auto plan = sys.make_sup_plan(0, budget);
    if (calm) {
        plan_t k;
        for (int i = (int)src.range(1, 3); i > 0; --i) {
            plan_t a;
            a.delay = src.range(0, 20) * MS;
            a.quit = src.range(1, 40) * MS;
            k.inst.push_back(a);
        }
        auto &l = k.inst.back();
        if (src.chance(70)) {
            l.fail = (fail_t)src.range(FAIL_ERR, FAIL_TIMEOUT);
            l.fail_at = src.range(1, 50) * MS;
            if (l.fail == FAIL_TIMEOUT)
                l.init_timeout = src.range(1, 60) * MS;
        }
        k.attempts = k.inst.size();
        k.period = src.chance(50) ? 0 : src.range(1, 60) * MS;
        auto *p = &plan;
        while (src.chance(50)) {
            plan_t *next = nullptr;
            for (auto &c : p->kids)
                if (c.sup)
                    next = &c;
            if (!next)
                break;
            p = next;
        }
        p->kids.push_back(k);
        sys.gen.failures = true;
    }
    slow_down(src, plan);
    jitter(src, plan);
    bool flat = !calm && sys.gen.failures && src.chance(15);
    if (flat) { // one shutdown_failed supervisor with plain children
        plan.policy = r::supervisor_policy_t::shutdown_failed;
        plan.sync = src.chance(30);
        for (auto &k : plan.kids) {
            k.sup = false;
            k.kids.clear();
            k.inst.clear();
        }
    } else
        settle_policy(plan);
    if (src.chance(40))
        add_quits(src, plan, true);
    std::map<int, plan_t> plans; // outlive the actors
    int late = -1;               // created later
    model_t m;
    m.kids = [&](int id) {
        auto v = w.mon(id).children;
        v.erase(std::remove_if(v.begin(), v.end(), [&](int i) { return i == late || plans[i].spawner >= 0; }), v.end());
        return v;
    };
    m.spawners = [&](int id) {
        std::vector<int> v;
        for (size_t i = 0; i < sys.spawners.size(); ++i)
            if (sys.spawners[i].sup == id)
                v.push_back((int)i);
        return v;
    };
    m.spawner_plan = [&](int i) { return &sys.spawners[i].plan; };
    m.spawned = [&](int i) { return sys.spawners[i].ids; };
    m.plan = [&](int id) -> plan_t & { return plans[id]; };
    w.on_hook = [&](mon_t &mo, hook_t h) {
        if (h == H_INIT_START)
            plans[mo.id] = sys.nodes[mo.id]->plan;
    };
    auto *rn = sys.make_root(plan);
    int root = rn->mo().id;
    w.settle(LIMIT);
    // what happens to the children which never got created does not matter
    m.init(root, 0);
    m.finish(root, INF, 0, false);
    if (m.tie) {
        eng::label("ambiguous times, not judged");
        w.on_hook = {};
        S = nullptr;
        return;
    }
    auto dev = compare(w, sys, m, root);
    bool any_timeout = m.any_timeout;
    if (!dev.empty() && m.differs) {
        model_t p = m;
        p.pinned = true;
        p.any_timeout = false;
        p.init(root, 0);
        p.finish(root, INF, 0, false);
        auto dev2 = compare(w, sys, p, root);
        if (dev2.empty() && flat) {
            auto &re = w.mon(root).reason;
            EXPECT(re && re->ec == r::make_error_code(r::shutdown_code_t::child_down), "outcome", "the supervisor's reason is '%s', expected child_down", re ? re->message().c_str() : "none");
            eng::soft_fail("policy-shutdown_failed", "under the shutdown_failed policy the supervisor of a failed child shuts itself down too: %s", dev.c_str());
            m = p;
            dev.clear();
            any_timeout = p.any_timeout;
        } else if (!p.tie)
            dev = dev2;
    }
    if (!dev.empty())
        eng::fail("outcome", "%s", dev.c_str());
    for (auto &mo : w.mons)
        for (auto e = mo->reason; e; e = e->next)
            if (!any_timeout)
                EXPECT(e->ec != r::make_error_code(r::error_code_t::request_timeout), "timeout", "%s reports an initialization timeout, none happened", mo->name.c_str());
    if (!any_timeout)
        for (auto &e : w.errors)
            EXPECT(e.root != r::make_error_code(r::error_code_t::request_timeout), "timeout", "a timeout is reported: %s", e.msg.c_str());
    int ops = 0, downs = 0;
    for (auto &mo : w.mons)
        (mo->operational() ? ops : downs)++;
    // a failing child of an operational supervisor
    std::vector<int> sups;
    for (auto *n : sys.nodes)
        if (n && n->as_sup() && n->mo().operational())
            sups.push_back(n->mo().id);
    if (!sups.empty() && src.chance(40)) {
        auto sid = src.pick(sups);
        std::vector<int> phase;
        for (auto &mo : w.mons)
            phase.push_back(mo->phase());
        plan_t p;
        p.fail = (fail_t)src.range(FAIL_ERR, FAIL_TIMEOUT);
        p.fail_at = src.range(1, 50) * MS;
        if (p.fail == FAIL_TIMEOUT)
            p.init_timeout = 30 * MS;
        late = (int)w.mons.size();
        eng::trace("-- a failing child for the operational %s", w.mon(sid).name.c_str());
        w.in_loc(w.mon(sid).loc, [&] { sys.create(*sys.nodes[sid]->as_sup(), p); });
        w.settle(LIMIT);
        EXPECT(w.mon(late).down() && !w.mon(late).initialized(), "late", "%s has to be shut down", w.mon(late).name.c_str());
        for (size_t i = 0; i < phase.size(); ++i)
            EXPECT(w.mon(i).phase() == phase[i], "late", "%s is affected by the failure of a child of the operational %s", w.mon(i).name.c_str(), w.mon(sid).name.c_str());
        eng::label("failure under an operational supervisor");
    }
    int fails = count_fails(plan);
    int respawned = 0;
    for (auto &s : sys.spawners)
        respawned += s.ids.size() > 1;
    if (respawned)
        eng::label("with respawned actors");
    eng::count("operational", ops);
    eng::count("down", downs);
    if (any_timeout)
        eng::label("initialization timeout");
    if (ops && downs)
        eng::label("some operational, some down");
    if (m.differs)
        eng::label("shutdown_failed with a failed child");
    if (w.mons.size() >= 3 && fails)
        eng::nontrivial();
    for (auto id : sys.roots)
        if (sys.nodes[id])
            w.in_loc(w.mon(id).loc, [&] { sys.nodes[id]->stop(0); });
    w.settle(2 * LIMIT);
    w.on_hook = {};
    w.keep.clear();
    w.ctxs.clear();
    S = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C03",
    "a random tree with a policy and a start mode per supervisor, per-actor initialization delays, failures (error, normal "
    "shutdown, hang until the timeout), short timeouts, and actors that quit after their start, some of them restarted by spawners; a timed reference model predicts "
    "when every actor gets initialized, started or shut down; non-trivial: at least 3 actors, some failing or with a short timeout",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
