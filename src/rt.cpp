#include "rt.h"

namespace rt {
world_t *W = nullptr;
int64_t counted_t::live = 0;

ns_t draw_interval(src_t &s) {
    switch (s.weighted({3, 3, 2, 2, 1})) {
    case 0:
        return (1 + s.draw(40)) * 50 * US;
    case 1:
        return (1 + s.draw(3)) * MS; // many equal ones
    case 2:
        return s.draw(1000) * US;
    case 3:
        return s.draw(20000) * US;
    default:
        return s.draw(400) * MS;
    }
}
r::pt::time_duration draw_poll(src_t &s) {
    static const int64_t us[] = {0, 20, 200, 1000, 5000};
    return r::pt::microseconds{us[s.weighted({4, 2, 2, 1, 1})]};
}
static r::pt::time_duration dur(ns_t d) { return r::pt::microseconds{d / US}; }

void actor_t::op() {
    auto &w = *W;
    auto &s = w.src;
    switch (s.weighted({6, 2, 3, 6, 4, 3, 3, 2, 4})) {
    case 0: {
        auto &p = peer();
        send<rt::direct_t>(p.addr, rt::direct_t{w.stamp(0, m.id, p)});
        break;
    }
    case 1: {
        auto &p = peer();
        send<rt::blocking_t>(p.addr, rt::blocking_t{w.stamp(0, m.id, p)});
        break;
    }
    case 2: {
        auto &p = s.chance(50) ? m : peer();
        send<rt::public_t>(p.addr, rt::public_t{w.stamp(1, m.id, p)});
        break;
    }
    case 3: {
        auto interval = draw_interval(s) / US * US;
        auto base = w.time_base(m, io);
        auto id = start_timer(dur(interval), *this, &actor_t::on_timer);
        auto no = ++w.n_timers;
        eng::trace("%lld %s starts timer %llu, %lld us%s", (long long)(vt::now() / US), m.name.c_str(), (unsigned long long)no,
                   (long long)(interval / US), io ? " (io)" : "");
        w.timers[{m.id, id}] = timer_t{&m, id, base, vt::now(), interval, true, false, no};
        break;
    }
    case 4: {
        std::vector<timer_t *> own;
        for (auto &p : w.timers)
            if (p.second.active && p.second.owner == &m)
                own.push_back(&p.second);
        if (own.empty())
            break;
        auto &t = *s.pick(own);
        eng::trace("%lld %s cancels timer %llu%s", (long long)(vt::now() / US), m.name.c_str(), (unsigned long long)t.no, io ? " (io)" : "");
        t.cancelling = true;
        cancel_timer(t.id);
        EXPECT(!t.active, "not cancelled", "%s has cancelled its timer %llu, but the callback was not called", m.name.c_str(),
               (unsigned long long)t.no);
        break;
    }
    case 5: {
        auto &p = peer();
        auto a = std::make_unique<ask_t>();
        a->id = (int)w.asks.size();
        a->from = &m;
        a->to = &p;
        a->timeout = draw_interval(s) / US * US + 100 * US;
        a->base = w.time_base(m, io);
        ++w.n_asks;
        auto body = w.stamp(0, m.id, p);
        auto timeout = dur(a->timeout);
        auto id = a->id;
        auto ptr = a.get();
        w.asks.push_back(std::move(a));
        request<rt::req_t>(p.addr, id, body).send(timeout);
        ptr->upper = vt::now();
        eng::trace("%lld %s asks %s, request %d, timeout %lld us", (long long)(vt::now() / US), m.name.c_str(), p.name.c_str(), id,
                   (long long)(ptr->timeout / US));
        break;
    }
    case 6: {
        auto d = (1 + s.draw(30)) * (s.chance(40) ? 100 : 10) * US;
        eng::trace("%lld %s is busy for %lld us", (long long)(vt::now() / US), m.name.c_str(), (long long)(d / US));
        for (int i = 0; i < 4; ++i)
            vt::advance(d / 4);
        break;
    }
    case 7: {
        if (held.empty())
            break;
        auto q = held.front();
        held.pop_front();
        answer(*q, s.chance(60));
        break;
    }
    default:
        if (w.extra) {
            ++w.n_extra;
            w.extra(*this);
        }
    }
}

void draw_traffic(world_t &w) {
    auto &s = w.src;
    w.ops_left = (int)(4 + s.draw(eng::thorough() ? 120 : 60));
    w.activity = (int)s.range(20, 90);
    w.max_ops = (int)s.range(1, 3);
    w.abrupt = s.chance(25);
}
vt::opts_t draw_schedule(world_t &w) {
    auto &s = w.src;
    vt::opts_t o;
    static const ns_t steps[] = {US, 200, 3 * US, 20 * US};
    static const uint32_t quotas[] = {0, 16, 4, 2};
    o.step = steps[s.weighted({3, 2, 2, 1})];
    o.quota = quotas[s.weighted({1, 3, 3, 2})];
    o.on_idle = [&w] { w.on_idle(); };
    o.describe = [&w] { return w.describe(); };
    return o;
}
void draw_foreign(world_t &w) {
    auto &s = w.src;
    for (auto a : w.actors) {
        if (!s.chance(30))
            continue;
        auto p = s.pick(w.actors);
        if (p == a || (w.abrupt && p->root != a->root))
            continue;
        if (w.abrupt && p->parent->loc != a->parent->loc)
            continue;
        a->actor->foreign.push_back(p->addr);
        w.subs[p->id].push_back(a->id);
    }
}
template <typename M, typename... Args> static void put_outside(mon_t &to, Args &&...args) {
    to.sup_of().enqueue(r::make_message<M>(to.addr, std::forward<Args>(args)...));
}
void outside_thread(world_t &w, int no, int n) {
    for (int i = 0; i < n; ++i) {
        vt::sleep(w.src.draw(1500) * US);
        int burst = (int)w.src.range(1, 4);
        for (int k = 0; k < burst; ++k) {
            auto &to = *w.src.pick(w.actors);
            switch (w.src.weighted({4, 1, 2})) {
            case 0:
                put_outside<rt::direct_t>(to, rt::direct_t{w.stamp(0, -no, to)});
                break;
            case 1:
                put_outside<rt::blocking_t>(to, rt::blocking_t{w.stamp(0, -no, to)});
                break;
            default:
                put_outside<rt::public_t>(to, rt::public_t{w.stamp(1, -no, to)});
            }
        }
    }
    --w.ext_left;
}
static void next_idle() {
    vt::wait([] { return true; });
}
void controller(world_t &w, std::function<void()> start_roots) {
    auto &s = w.src;
    start_roots();
    next_idle();
    for (auto &m : w.mons)
        EXPECT(m->started, "not started", "nothing runs, but %s is not started", m->name.c_str());
    w.traffic = true;
    auto ext = (int)s.weighted({2, 3, 2});
    w.ext_left = ext;
    for (int k = 1; k <= ext; ++k)
        vt::spawn("outside " + std::to_string(k), [&w, k, n = (int)s.range(1, 6)] { outside_thread(w, k, n); });
    for (auto a : w.actors)
        if (s.chance(70) || a == w.actors.front()) {
            ++a->undelivered;
            put_outside<go_t>(*a);
        }
    if (!w.abrupt) {
        vt::wait([&w] { return w.quiet(); });
        w.traffic = false;
        bool foreign = false;
        for (auto a : w.actors)
            if (a->actor && !a->actor->foreign.empty()) {
                foreign = true;
                ++a->undelivered;
                put_outside<leave_t>(*a);
            }
        if (foreign)
            next_idle();
    } else {
        vt::sleep(s.draw(4000) * US);
    }
    w.stopping = true;
    auto gap = [&] {
        if (w.abrupt)
            vt::sleep(s.draw(800) * US);
    };
    // nested ones first, sometimes
    for (auto m : w.sups)
        if (m->parent && s.chance(25)) {
            eng::trace("%lld --- %s is asked to shut down", (long long)(vt::now() / US), m->name.c_str());
            w.stop(*m);
            if (!w.abrupt) {
                next_idle();
                EXPECT(m->down, "shutdown", "nothing runs, but %s has not shut down", m->name.c_str());
            } else
                gap();
        }
    auto order = w.roots;
    for (size_t i = 0; i + 1 < order.size(); ++i)
        std::swap(order[i], order[i + s.draw((uint32_t)(order.size() - i))]);
    for (auto m : order) {
        gap();
        mon_t *direct = nullptr;
        for (auto a : w.actors)
            if (a->parent == m && !a->down_begun)
                direct = a;
        auto how = s.weighted({3, direct ? 2u : 0u, m->flag ? 2u : 0u});
        eng::trace("%lld --- %s is asked to shut down (%d)", (long long)(vt::now() / US), m->name.c_str(), (int)how);
        if (how == 0) {
            w.stop(*m);
        } else if (how == 1) {
            put_outside<stop_t>(*direct);
        } else {
            *m->flag = true;
        }
        if (!w.abrupt) {
            if (how == 2)
                vt::wait([m] { return m->down; });
            else
                next_idle();
            EXPECT(m->down, "shutdown", "nothing runs, but %s has not shut down", m->name.c_str());
        }
    }
    // an actor which is gone meanwhile cannot forward the request
    if (w.abrupt) {
        next_idle();
        for (auto m : order)
            if (!m->down_begun && !(m->flag && *m->flag))
                w.stop(*m);
    }
    vt::wait([&w] {
        for (auto &m : w.mons)
            if (!m->down)
                return false;
        return true;
    });
    if (w.all_down)
        w.all_down();
}
void finish(world_t &w) {
    for (auto &m : w.mons)
        EXPECT(m->down, "shutdown", "the loops have ended, but %s is not shut down", m->name.c_str());
    for (auto &m : w.mons)
        m->addr.reset();
}
void finish_released(world_t &w) {
    for (auto &m : w.mons)
        EXPECT(m->destroyed, "leak", "everything is released, but %s is alive", m->name.c_str());
    EXPECT(counted_t::live == 0, "leak", "everything is released, but %lld messages are alive", (long long)counted_t::live);
    eng::count("messages", w.n_rcvd);
    eng::count("timers fired", w.n_fired);
    eng::count("timers cancelled", w.n_cancelled);
    eng::count("requests", w.n_asks);
    eng::count("request timeouts", w.n_timeouts);
    eng::count("backend calls", w.n_extra);
    eng::count("thread switches", vt::switches());
    if (w.abrupt)
        eng::label("abrupt");
    if (w.roots.size() > 1)
        eng::label("several roots");
    if (w.sups.size() > w.roots.size())
        eng::label("nested supervisors");
    if (w.n_rcvd >= 4 && (w.n_fired + w.n_cancelled + w.n_asks) >= 1)
        eng::nontrivial();
}
} // namespace rt
