// C13: a spawner restarts its actor exactly as its restart policy says
#include "sim.h"
#include "rotor/spawner.h"
#include <set>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;
using policy_t = r::restart_policy_t;
const char *POLICY[] = {"always", "never", "ask_actor", "normal_only", "fail_only"};

enum class next_t_ { first, yes, no, maybe };
struct inst_t;
struct spawner_rec_t {
    int idx;
    int sup; // monitor
    policy_t policy;
    uint64_t period = 0;
    size_t max = 0;
    bool escalate = false;
    uint64_t throw_pct = 0, fail_pct = 0, init_fail_pct = 0;
    // history
    size_t attempts = 0;
    uint64_t last_at = 0, down_at = 0; // last attempt, end of the last instance
    next_t_ next = next_t_::first;
    bool must_escalate = false;
    mon_t *inst = nullptr; // the current or last instance
    inst_t *obj = nullptr;
    std::error_code end;
};
struct net_t {
    std::vector<std::unique_ptr<spawner_rec_t>> sp;
    std::set<int> cause, maybe; // monitors of supervisors which are (might be) taken down
    std::vector<sup_t *> sups;
    uint64_t attempts = 0, restarts = 0, thrown = 0;
    bool caused(int m, bool sure) {
        for (; m >= 0; m = W->mon(m).parent)
            if (cause.count(m) || (!sure && maybe.count(m)))
                return true;
        return false;
    }
    void settled();
};
net_t *N;

enum class how_t { lives, normal, failure, init_failure, init_timeout };
std::error_code failure() { return r::make_error_code(r::error_code_t::cancelled); }

struct inst_t : act_t {
    spawner_rec_t *sp;
    how_t how;
    uint64_t when;
    int asked = 0;
    bool again = false;
    static spawner_rec_t *NEXT_SP;
    explicit inst_t(config_t &c) : act_t(c), sp{NEXT_SP} {
        auto &src = W->src;
        how = how_t::lives;
        if (src.chance(sp->init_fail_pct))
            how = src.chance(50) ? how_t::init_failure : how_t::init_timeout;
        else if (src.chance(70))
            how = src.chance(sp->fail_pct) ? how_t::failure : how_t::normal;
        when = src.weighted({30, 70}) ? src.range(0, 30) * MS : 0;
        again = src.chance(70);
        sp->inst = m;
        sp->obj = this;
    }
    ~inst_t() {
        if (sp->obj == this)
            sp->obj = nullptr;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        act_t::configure(p);
        if (how == how_t::init_failure || how == how_t::init_timeout)
            p.with_casted<r::plugin::resources_plugin_t>([&](auto &) {
                resources->acquire();
                if (how == how_t::init_failure) {
                    if (when)
                        start_timer(us(when), *this, &inst_t::on_timer);
                    else
                        end();
                }
            });
    }
    void on_start() noexcept override {
        act_t::on_start();
        if (how == how_t::normal || how == how_t::failure) {
            if (when)
                start_timer(us(when), *this, &inst_t::on_timer);
            else
                end();
        }
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        if (!cancelled)
            end();
    }
    void end() {
        if (m->stopping())
            return;
        bool bad = how == how_t::failure || how == how_t::init_failure;
        eng::trace("  %s is going to end: %s", m->name.c_str(), bad ? "failure" : "normally");
        do_shutdown(bad ? make_error(failure()) : r::extended_error_ptr_t{});
    }
    void shutdown_start() noexcept override {
        act_t::shutdown_start();
        if (resources->has_any())
            resources->release();
    }
    bool should_restart() const noexcept override {
        auto self = const_cast<inst_t *>(this);
        ++self->asked;
        EXPECT(m->down(), "ask", "%s is asked about a restart though it is not shut down", m->name.c_str());
        EXPECT(sp->policy == policy_t::ask_actor, "ask", "%s is asked about a restart, the policy is %s", m->name.c_str(), POLICY[(int)sp->policy]);
        eng::trace("  %s is asked about a restart: %s", m->name.c_str(), again ? "yes" : "no");
        return again;
    }
};
spawner_rec_t *inst_t::NEXT_SP;

// the instance is down: what should follow?
void ended(mon_t &m) {
    for (auto &p : N->sp) {
        auto &s = *p;
        if (s.inst != &m)
            continue;
        s.down_at = W->now;
        s.end = m.reason ? m.reason->root()->ec : std::error_code{};
        bool bad = (bool)s.end;
        auto &sup = W->mon(s.sup);
        if (s.obj && s.obj->how == how_t::failure && bad && !sup.stopping())
            EXPECT(s.end == failure(), "reason", "%s: wrong shutdown reason %s", m.name.c_str(), m.reason->message().c_str());
        bool exhausted = s.max && s.attempts >= s.max;
        bool more = !exhausted;
        switch (s.policy) {
        case policy_t::always:
            break;
        case policy_t::never:
            more = false;
            break;
        case policy_t::ask_actor:
            more = more && s.obj->again;
            break;
        case policy_t::normal_only:
            more = more && !bad;
            break;
        case policy_t::fail_only:
            more = more && bad;
            break;
        }
        s.next = more ? next_t_::yes : next_t_::no;
        eng::trace("  [t=%lu] %s is over %s (%s, attempt %zu of %zu): %s", (unsigned long)W->now, m.name.c_str(), bad ? "with a failure" : "normally",
                   POLICY[(int)s.policy], s.attempts, s.max, more ? "restart" : "no restart");
        if (!sup.n[H_INIT_FINISH]) // the supervisor is not ready yet: the supervisor policy (C03)
            N->maybe.insert(s.sup);
        if (sup.stopping())
            return;
        if (s.escalate && !more) {
            bool must = bad && (exhausted || s.policy == policy_t::normal_only);
            eng::label(must ? "escalates" : "might escalate");
            (must ? N->cause : N->maybe).insert(s.sup);
            s.must_escalate = must;
        }
    }
}

r::actor_ptr_t factory(spawner_rec_t &s, r::supervisor_t &sup, const r::address_ptr_t &addr) {
    auto &src = W->src;
    auto &m = W->mon(s.sup);
    ++s.attempts;
    ++N->attempts;
    eng::trace("  [t=%lu] attempt %zu of spawner %d of %s", (unsigned long)W->now, s.attempts, s.idx, m.name.c_str());
    EXPECT(W->cur_loc == m.loc, "wrong-locality", "the factory is called in another locality");
    EXPECT(!m.stopping(), "during-shutdown", "a new instance is created while %s is being shut down", m.name.c_str());
    EXPECT(!s.inst || s.inst->down(), "overlap", "a new instance is created while the previous one is not shut down");
    EXPECT(!s.max || s.attempts <= s.max, "attempts", "attempt %zu of %zu", s.attempts, s.max);
    EXPECT(s.next != next_t_::no, "policy", "a new instance is created against the policy %s, the previous one ended with %s", POLICY[(int)s.policy],
           s.end.message().c_str());
    if (s.attempts > 1) {
        EXPECT(s.next != next_t_::first, "overlap", "the factory is called twice");
        EXPECT(W->now >= s.last_at + s.period, "too-early", "a new instance is created %lu us after the previous attempt, the restart period is %lu us",
               (unsigned long)(W->now - s.last_at), (unsigned long)s.period);
        ++N->restarts;
    }
    s.last_at = W->now;
    s.next = next_t_::first; // nothing is due
    if (src.chance(s.throw_pct)) {
        ++N->thrown;
        s.down_at = W->now;
        bool retry = (s.policy == policy_t::always || s.policy == policy_t::fail_only) && !(s.max && s.attempts >= s.max);
        s.next = retry ? next_t_::yes : next_t_::no;
        eng::trace("  it throws");
        if (!m.n[H_INIT_FINISH]) {
            N->maybe.insert(s.sup);
            s.next = next_t_::maybe;
        }
        if (s.escalate && !retry)
            N->maybe.insert(s.sup);
        throw std::runtime_error("no actor");
    }
    W->next_parent = m.id;
    inst_t::NEXT_SP = &s;
    return sup.create_actor<inst_t>().init_timeout(us(40 * MS)).shutdown_timeout(us(FAR)).spawner_address(addr).finish();
}

void net_t::settled() {
    for (auto &m : W->mons)
        EXPECT(!m->stopping() || m->down_done, "shutdown", "%s does not finish its shutdown", m->name.c_str());
    for (auto *s : sups) {
        bool sure = caused(s->m->id, true);
        EXPECT(!sure || s->m->down_done, "not-escalated", "%s should have been shut down", s->m->name.c_str());
        EXPECT(!s->m->stopping() || caused(s->m->id, false), "escalated", "%s is shut down for no reason: %s", s->m->name.c_str(),
               s->m->reason ? s->m->reason->message().c_str() : "");
        EXPECT(s->m->stopping() || s->m->operational(), "stuck", "%s does not become operational", s->m->name.c_str());
    }
    for (auto &p : sp) {
        auto &s = *p;
        auto &m = W->mon(s.sup);
        if (m.stopping())
            continue;
        EXPECT(s.attempts, "never", "the first instance is not created");
        EXPECT(s.next != next_t_::yes, "not-restarted", "no new instance is created; policy %s, the previous attempt %zu of %zu ended with %s",
               POLICY[(int)s.policy], s.attempts, s.max, s.end.message().c_str());
    }
}

void add_spawner(sup_t &s) {
    auto &src = W->src;
    N->sp.push_back(std::make_unique<spawner_rec_t>());
    auto &p = *N->sp.back();
    auto *q = &p;
    p.idx = (int)N->sp.size() - 1;
    p.sup = s.m->id;
    p.policy = (policy_t)src.draw(5);
    p.period = src.weighted({25, 75}) ? src.range(1, 100) * MS : 0;
    p.max = src.chance(p.period ? 60 : 100) ? src.range(1, 5) : 0;
    p.escalate = src.chance(40);
    p.throw_pct = src.chance(25) ? src.range(20, 100) : 0;
    p.fail_pct = src.pick(std::vector<uint64_t>{50, 0, 100, 20, 80});
    p.init_fail_pct = src.chance(25) ? 40 : 0;
    eng::trace("  spawner %d of %s: %s, period %lu us, %zu attempts%s", p.idx, s.m->name.c_str(), POLICY[(int)p.policy], (unsigned long)p.period, p.max,
               p.escalate ? ", escalates" : "");
    auto b = s.spawn([q](r::supervisor_t &sup, const r::address_ptr_t &a) { return factory(*q, sup, a); });
    (void)std::move(b).restart_period(us(p.period)).restart_policy(p.policy).max_attempts(p.max).escalate_failure(p.escalate);
    if (src.chance(60))
        b.spawn();
}

void hook(mon_t &m, hook_t h) {
    if (!N)
        return;
    if (h == H_SHUTDOWN_FINISH)
        ended(m);
    // a supervisor which is lost before its parent is ready: the supervisor policy of the parent (C03)
    if (h == H_SHUTDOWN_START && m.sup && m.parent >= 0 && !W->mon(m.parent).n[H_INIT_FINISH])
        N->maybe.insert(m.parent);
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    w.on_hook = hook;
    bool early = src.chance(25); // the spawners start while the supervisor is being initialized
    std::vector<sup_t *> held; // supervisors, which initialize slowly
    auto release = [&] {
        if (held.empty())
            return;
        auto *s = held.back();
        held.pop_back();
        if (!s->m->down())
            w.in_loc(s->loc->id, [&] { s->res()->release(); });
    };
    int nsup = (int)src.range(1, 3);
    for (int i = 0; i < nsup; ++i) {
        sup_opts_t o;
        o.plain = src.chance(50);
        o.policy = src.chance(50) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        o.sync = src.chance(15);
        sup_t *s = nullptr;
        if (i == 0) {
            o.loc = w.new_loc();
            s = make_root<>(o);
        } else {
            auto *p = src.pick(n.sups);
            if (p->m->phase() > 3)
                continue;
            o.loc = src.chance(50) ? w.new_loc() : p->loc;
            w.in_loc(p->loc->id, [&] { s = make_child_sup<>(*p, o); });
        }
        n.sups.push_back(s);
        if (early && src.chance(80)) {
            eng::label("spawner of an initializing supervisor");
            w.in_loc(s->loc->id, [&] {
                if (src.chance(60)) {
                    s->res()->acquire();
                    held.push_back(s);
                }
                add_spawner(*s);
            });
        }
        if (!early || src.chance(50))
            w.settle(w.now);
    }
    int left = (int)src.range(1, 5), steps = (int)src.range(2, 60);
    for (int i = 0; i < steps; ++i) {
        std::vector<sup_t *> up;
        for (auto *s : n.sups)
            if (s->m->operational() && !s->m->stopping())
                up.push_back(s);
        auto k = src.weighted({40, left ? 25u : 0u, 12, 12, 3});
        if (src.chance(10))
            release();
        if (k == 0) {
            for (auto c = src.range(1, 6); c > 0; --c)
                w.step(w.now + 50 * MS);
        } else if (k == 1 && !up.empty()) {
            auto *s = src.pick(up);
            --left;
            w.in_loc(s->loc->id, [&] { add_spawner(*s); });
        } else if (k == 2) { // end an instance
            std::vector<inst_t *> l;
            for (auto &p : n.sp)
                if (p->obj && p->obj->m->operational() && !p->obj->m->stopping())
                    l.push_back(p->obj);
            if (l.empty())
                continue;
            auto *x = src.pick(l);
            if (x->how != how_t::failure)
                x->how = src.chance(x->sp->fail_pct) ? how_t::failure : how_t::normal;
            w.in_loc(x->m->loc, [&] { x->end(); });
        } else if (k == 3) {
            w.settle(w.now + src.range(0, 60) * MS);
        } else if (k == 4 && !up.empty()) {
            auto *s = src.pick(up);
            if (s == n.sups[0] && src.chance(70))
                continue;
            eng::trace("  stop %s", s->m->name.c_str());
            n.cause.insert(s->m->id);
            w.in_loc(s->loc->id, [&] { s->do_shutdown(); });
        }
    }
    auto quiet = [&] { // no more restarts without end
        for (auto &p : n.sp)
            if (!p->max && (p->policy != policy_t::never)) {
                p->throw_pct = p->init_fail_pct = 0;
            }
    };
    while (!held.empty())
        release();
    bool rush = src.chance(50);
    if (!rush) {
        quiet();
        bool endless = false;
        for (auto &p : n.sp)
            endless |= !p->max;
        if (!endless) {
            w.settle(w.now + LIMIT);
            n.settled();
            eng::label("settled");
        } else { // at least the shutdowns are over, and nobody waits for a restart longer than it should
            w.settle(w.now + 300 * MS);
            for (auto &p : n.sp)
                if (!w.mon(p->sup).stopping() && p->next == next_t_::yes)
                    EXPECT(w.now <= p->down_at + p->period + 1 * MS, "late", "no new instance %lu us after the previous one, the restart period is %lu us",
                           (unsigned long)(w.now - p->down_at), (unsigned long)p->period);
        }
    }
    auto *root = n.sups[0];
    if (!root->m->stopping()) {
        n.cause.insert(root->m->id);
        eng::trace("  stop %s", root->m->name.c_str());
        w.in_loc(root->loc->id, [&] { root->do_shutdown(); });
    }
    // a pending restart is given up, it does not delay the shutdown
    w.settle(w.now);
    EXPECT(root->m->down(), "delayed", "the shutdown does not complete before some timer fires (e.g. that of a pending restart)");
    w.settle(w.now + LIMIT);
    n.settled();
    for (auto &m : w.mons)
        EXPECT(m->down_done, "shutdown", "%s does not shut down", m->name.c_str());
    eng::count("spawners", n.sp.size());
    eng::count("attempts", n.attempts);
    eng::count("restarts", n.restarts);
    eng::count("factory throws", n.thrown);
    if (n.restarts >= 1 && n.sp.size() >= 1)
        eng::nontrivial();
    N = nullptr;
    w.on_hook = {};
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C13",
    "1-3 supervisors (a tree) with up to 8 spawners with random policy, restart period (0-100 ms of virtual time, the wall clock is virtual), attempts "
    "(1-5 or unlimited) and escalation; instances end normally, with failures, in initialization, by throwing factories; supervisors are shut "
    "down at random moments; non-trivial: at least one restart",
    30000, 800000, 40, 8, 20, 0, run, nullptr};
