// C16: a routed message goes on to its next address exactly once, after all recipients
#include "sim.h"
#include <map>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
struct cargo_t {
    uint64_t id;
    std::shared_ptr<uint64_t> canary;
    explicit cargo_t(uint64_t i) : id{i}, canary{std::make_shared<uint64_t>(i * 7 + 1)} {}
    cargo_t(const cargo_t &) = delete;
    bool intact() const { return canary && *canary == id * 7 + 1; }
};
template <int K> struct parcel_t : cargo_t {
    using cargo_t::cargo_t;
};
template <int K> using msg = r::message_t<parcel_t<K>>;

struct addr_t {
    r::address_ptr_t a;
    int loc;
};
struct stage_t {
    int addr;
    bool by_redirect;
    bool redirected = false, kept = false; // a recipient took over
    int decider_loc = -1;
    std::map<int, int> handled; // monitor -> times
    std::set<int> waive;        // not necessarily delivered
};
struct rec_t { // one message
    uint64_t id;
    int type;
    std::vector<stage_t> st;
    std::vector<int> todo; // further addresses by itself (0 or 1 of them)
    const void *obj = nullptr;
    r::message_ptr_t kept;
    int kept_by = -1;
    bool dropped = false;
};
struct who_t;
struct net_t {
    src_t &src;
    std::vector<addr_t> addrs;
    std::vector<who_t *> nodes;
    std::map<std::pair<int, int>, std::set<int>> subs; // address, type -> monitors
    std::vector<std::unique_ptr<rec_t>> recs;
    int budget = 0;
    uint32_t redirect_pct = 0, keep_pct = 0;
    uint64_t handled = 0, routed = 0, followed = 0, redirected = 0, kept = 0, foreign = 0, silent = 0;
    explicit net_t(src_t &s) : src{s} {}
    bool doomed(int m) { return W->mon(m).stopping() || stopped.count(m); }
    std::set<int> stopped;
    void check_stage(rec_t &q, size_t i, const char *tag);
};
net_t *N;

struct who_t {
    mon_t *mo = nullptr;
    std::vector<std::pair<int, int>> listens;
    virtual ~who_t() = default;
    virtual r::actor_base_t &actor() = 0;
    virtual void send_new() = 0;
    virtual void resend(rec_t &q) = 0;
    virtual int open() = 0;
};

// the first stage where this call may belong to
stage_t *place(rec_t &q, int addr, int m) {
    stage_t *last = nullptr;
    for (auto &s : q.st)
        if (s.addr == addr) {
            last = &s;
            if (!s.handled.count(m))
                return &s;
        }
    return last;
}

void net_t::check_stage(rec_t &q, size_t i, const char *tag) {
    auto &s = q.st[i];
    for (int m : subs[{s.addr, q.type}]) {
        auto &x = W->mon(m);
        if (doomed(m) || s.waive.count(m))
            continue;
        if (s.redirected && (x.loc != addrs[s.addr].loc))
            continue; // the redirected message has got another address
        EXPECT(s.handled.count(m), tag, "%s has not got message %lu (stage %zu of %zu, address %d)", x.name.c_str(), (unsigned long)q.id, i + 1,
               q.st.size(), s.addr);
    }
}

template <typename Base> struct node_t : Base, who_t {
    template <typename C> explicit node_t(C &c) : Base(c) {
        mo = Base::m;
        N->nodes.push_back(this);
    }
    ~node_t() {
        auto &l = N->nodes;
        l.erase(std::find(l.begin(), l.end(), static_cast<who_t *>(this)));
    }
    r::actor_base_t &actor() override { return *this; }
    int open() override {
        N->addrs.push_back({Base::create_address(), mo->loc});
        return (int)N->addrs.size() - 1;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            auto &src = N->src;
            if (src.chance(60)) {
                N->addrs.push_back({Base::get_address(), mo->loc});
                on((int)N->addrs.size() - 1, p);
            }
            for (auto c = src.range(0, 3); c > 0; --c) {
                if (N->addrs.empty())
                    break;
                on((int)src.draw((uint32_t)N->addrs.size()), p);
            }
        });
    }
    template <typename P> void on(int a, P &p) {
        auto t = N->src.weighted({60, 20, 20});
        if (t != 1)
            on2<0>(a, p);
        if (t != 0)
            on2<1>(a, p);
    }
    template <int K, typename P> void on2(int a, P &p) {
        if (!N->subs[{a, K}].insert(mo->id).second)
            return;
        listens.push_back({a, K});
        auto fn = r::lambda<msg<K>>([this, a](msg<K> &m) { this->template got<K>(m, a); });
        if (N->src.chance(50))
            p.subscribe_actor(std::move(fn), N->addrs[a].a);
        else
            Base::subscribe(std::move(fn), N->addrs[a].a);
    }
    template <int K> void got(msg<K> &m, int a) {
        auto &n = *N;
        EXPECT(m.payload.intact(), "payload", "the payload of a message is broken");
        EXPECT(m.payload.id < n.recs.size(), "payload", "unknown message %lu", (unsigned long)m.payload.id);
        auto &q = *n.recs[m.payload.id];
        if (!q.obj)
            q.obj = &m;
        EXPECT(q.obj == &m, "another-message", "message %lu is not the one which was sent", (unsigned long)q.id);
        EXPECT(W->cur_loc == mo->loc, "wrong-locality", "%s handles a message in another locality", mo->name.c_str());
        EXPECT(!q.dropped, "after-drop", "message %lu is delivered after its keeper has dropped it", (unsigned long)q.id);
        ++n.handled;
        if (n.addrs[a].loc != mo->loc)
            ++n.foreign;
        auto *s = place(q, a, mo->id);
        eng::trace("  %s handles message %lu at address %d", mo->name.c_str(), (unsigned long)q.id, a);
        if (!s || s->handled.count(mo->id)) {
            // the next stage begins: by the follow-up address?
            auto &l = q.st.back();
            EXPECT(!l.kept, "kept-goes-on", "message %lu is delivered to address %d, while a recipient keeps it", (unsigned long)q.id, a);
            EXPECT(!q.todo.empty() && q.todo.front() == a, s ? "twice" : "wrong-address", "%s has got message %lu at address %d%s", mo->name.c_str(),
                   (unsigned long)q.id, a, s ? " once more" : "");
            follow(q);
            s = &q.st.back();
        }
        size_t i = s - q.st.data();
        if (!s->by_redirect && i > 0) {
            n.check_stage(q, i - 1, "too-early");
            if (s == &q.st.back() && s->handled.empty()) {
                EXPECT(m.address == n.addrs[a].a, "address", "the routed message has got a wrong address");
                EXPECT(!m.next_route, "address", "the routed message still has the follow-up address");
            }
        }
        ++s->handled[mo->id];
        // take it over?
        bool busy = s != &q.st.back() || s->redirected || s->kept;
        if (busy || q.st.size() > 5)
            return;
        if (fresh(q) >= 0 && n.src.chance(n.redirect_pct)) {
            s->redirected = true;
            ++n.redirected;
            redirect(q, r::message_ptr_t(&m));
        } else if (n.src.chance(n.keep_pct)) {
            ++n.kept;
            s->kept = true;
            q.kept = r::message_ptr_t(&m);
            q.kept_by = mo->id;
            eng::trace("  %s keeps message %lu", mo->name.c_str(), (unsigned long)q.id);
        }
    }
    static void follow(rec_t &q) {
        ++N->followed;
        q.st.push_back({q.todo.front(), false});
        q.todo.clear();
    }
    // an address where the message has not been yet: it is clear what a further delivery to an old one belongs to
    int fresh(rec_t &q) {
        std::vector<int> l;
        for (int a = 0; a < (int)N->addrs.size(); ++a)
            if (std::none_of(q.st.begin(), q.st.end(), [&](auto &s) { return s.addr == a; }))
                l.push_back(a);
        return l.empty() ? -1 : N->src.pick(l);
    }
    void redirect(rec_t &q, r::message_ptr_t m) {
        auto &n = *N;
        auto a = fresh(q);
        q.st.push_back({a, true});
        q.todo.clear();
        if (n.src.chance(60) && fresh(q) >= 0)
            q.todo.push_back(fresh(q));
        eng::trace("  %s redirects message %lu to %d, then %d", mo->name.c_str(), (unsigned long)q.id, a, q.todo.empty() ? -1 : q.todo[0]);
        if (q.todo.empty() && n.src.chance(50))
            Base::redirect(std::move(m), n.addrs[a].a);
        else
            Base::redirect(std::move(m), n.addrs[a].a, q.todo.empty() ? r::address_ptr_t{} : n.addrs[q.todo[0]].a);
    }
    void resend(rec_t &q) override {
        if (fresh(q) < 0)
            return;
        auto m = std::move(q.kept);
        q.kept.reset();
        auto &s = q.st.back();
        s.kept = false;
        s.redirected = true; // (whatever had to be delivered before has been checked)
        redirect(q, std::move(m));
    }
    void send_new() override {
        auto &n = *N;
        if (n.addrs.empty() || n.budget <= 0)
            return;
        --n.budget;
        if (n.src.chance(70))
            send2<0>();
        else
            send2<1>();
    }
    template <int K> void send2() {
        auto &n = *N;
        n.recs.push_back(std::make_unique<rec_t>());
        auto &q = *n.recs.back();
        q.id = n.recs.size() - 1;
        q.type = K;
        auto pick = [&] { return (int)n.src.draw((uint32_t)n.addrs.size()); };
        int a = pick();
        q.st.push_back({a, true});
        if (n.src.chance(90))
            q.todo.push_back(n.src.chance(10) ? a : pick());
        auto next = q.todo.empty() ? r::address_ptr_t{} : n.addrs[q.todo[0]].a;
        eng::trace("  %s sends message %lu to %d, then to %d", mo->name.c_str(), (unsigned long)q.id, a, q.todo.empty() ? -1 : q.todo[0]);
        if (!q.todo.empty())
            ++n.routed;
        r::message_ptr_t m;
        switch (n.src.draw(3)) {
        case 0:
            m = r::make_routed_message<parcel_t<K>>(n.addrs[a].a, next, q.id);
            q.obj = m.get();
            Base::get_supervisor().put(std::move(m));
            break;
        case 1:
            m = r::make_message<parcel_t<K>>(n.addrs[pick()].a, q.id);
            q.obj = m.get();
            Base::redirect(std::move(m), n.addrs[a].a, next);
            break;
        default:
            Base::template route<parcel_t<K>>(n.addrs[a].a, next, q.id);
            break;
        }
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

// nothing is in flight
void quiescent() {
    auto &n = *N;
    for (auto &p : n.recs) {
        auto &q = *p;
        for (size_t i = 0; i < q.st.size(); ++i)
            n.check_stage(q, i, "not-delivered");
        if (q.st.back().kept || q.todo.empty())
            continue;
        for (int m : n.subs[{q.todo[0], q.type}])
            EXPECT(n.doomed(m), "not-routed", "message %lu has not been routed to address %d: %s has not got it", (unsigned long)q.id, q.todo[0],
                   W->mon(m).name.c_str());
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n(src);
    N = &n;
    int nl = (int)src.range(1, 3);
    std::vector<sup_t *> sups;
    for (int i = 0; i < nl; ++i) {
        sup_opts_t o;
        o.plain = src.chance(50);
        o.loc = w.new_loc();
        if (i == 0)
            sups.push_back(make_root<snode_t, spnode_t>(o));
        else {
            auto *p = src.pick(sups);
            w.in_loc(p->loc->id, [&] { sups.push_back(make_child_sup<snode_t, spnode_t>(*p, o)); });
        }
        w.settle(0);
        o.loc = sups.back()->loc;
        if (src.chance(30)) {
            auto *p = sups.back();
            w.in_loc(p->loc->id, [&] { sups.push_back(make_child_sup<snode_t, spnode_t>(*p, o)); });
        }
        w.settle(0);
    }
    int na = (int)src.range(2, 7);
    for (int i = 0; i < na; ++i) {
        auto *s = src.pick(sups);
        w.in_loc(s->loc->id, [&] { make_actor<anode_t>(*s); });
        w.settle(0);
        if (src.chance(30))
            w.in_loc(s->loc->id, [&] { n.nodes.back()->open(); });
    }
    for (auto &m : w.mons)
        EXPECT(m->operational(), "setup", "%s is not operational", m->name.c_str());
    if (n.addrs.empty())
        n.nodes[0]->open();
    n.redirect_pct = src.chance(50) ? (uint32_t)src.range(2, 20) : 0;
    n.keep_pct = src.chance(30) ? (uint32_t)src.range(2, 15) : 0;
    n.budget = (int)src.range(2, eng::thorough() ? 80 : 40);
    int steps = (int)src.range(5, 80);
    bool stops = src.chance(25);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({50, 40, stops ? 3u : 0u, 4});
        if (k == 0 && w.step(w.now + 10 * MS))
            continue;
        if (k == 3) { // quiet: what is kept may be sent further or forgotten
            w.settle(w.now + 10 * MS);
            quiescent();
            for (size_t j = 0; j < n.recs.size(); ++j) {
                auto &q = *n.recs[j];
                if (!q.kept || !src.chance(50))
                    continue;
                auto &x = w.mon(q.kept_by);
                w.in_loc(x.loc, [&] {
                    if (x.operational() && src.chance(70)) {
                        for (auto *y : n.nodes)
                            if (y->mo == &x)
                                return y->resend(q);
                    }
                    q.dropped = true;
                    q.kept.reset();
                });
            }
            continue;
        }
        std::vector<who_t *> l;
        for (auto *x : n.nodes)
            if (x->mo->operational())
                l.push_back(x);
        auto *x = src.pick(l);
        if (k == 2) {
            if (!x->mo->sup) {
                n.stopped.insert(x->mo->id);
                w.in_loc(x->mo->loc, [&] { x->actor().do_shutdown(); });
            }
        } else
            w.in_loc(x->mo->loc, [&] {
                for (auto c = src.range(1, 3); c > 0; --c)
                    x->send_new();
            });
    }
    w.settle(w.now + LIMIT);
    quiescent();
    n.redirect_pct = n.keep_pct = 0;
    for (auto &q : n.recs)
        if (q->kept) {
            q->dropped = true;
            w.in_loc(w.mon(q->kept_by).loc, [&] { q->kept.reset(); });
        }
    w.settle(w.now + LIMIT);
    eng::count("messages", n.recs.size());
    eng::count("messages with a follow-up address", n.routed);
    eng::count("handled", n.handled);
    eng::count("handled at an address of another locality", n.foreign);
    eng::count("went on to the follow-up address (seen)", n.followed);
    eng::count("redirected", n.redirected);
    eng::count("kept", n.kept);
    if (n.foreign)
        eng::label("foreign subscribers");
    if (n.redirected)
        eng::label("redirects");
    if (n.followed >= 1)
        eng::nontrivial();
    n.recs.clear();
    n.addrs.clear();
    if (!w.keep[0]->m->stopping())
        w.in_loc(w.keep[0]->loc->id, [&] { w.keep[0]->do_shutdown(); });
    w.settle(w.now + LIMIT);
    check_nothing_left("leftover");
    N = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C16",
    "4-13 actors and supervisors in 1-3 localities with addresses and subscriptions of their own and to each other's; messages are routed "
    "(route, redirect, make_routed_message) over two addresses, recipients redirect or keep some of them; random interleaving; "
    "non-trivial: at least one message was seen at its follow-up address",
    30000, 800000, 40, 8, 20, 0, run, nullptr};
