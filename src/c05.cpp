// C05: delivery to exactly the current subscribers (one locality)
#include "sim.h"
using namespace sim;
using r::message_ptr_t;

namespace {
constexpr int T = 3, SLOTS = 4; // message types, handlers per type (slot 2 is a lambda, slot 3 belongs to a plugin of the user)

struct sub_t { // one subscription
    int actor, type, slot, addr;
    uint64_t sub_ev, unsub_ev = (uint64_t)-1; // unsub_ev: given up (explicitly or by a shutdown request)
    uint64_t may_end = (uint64_t)-1;          // given up explicitly: no message sent later may arrive
    r::subscription_info_ptr_t info;
};
struct sent_t {
    uint64_t id;
    int type, addr;
    uint64_t ev, quiesce = (uint64_t)-1;
    std::map<std::array<int, 3>, int> got; // actor, type, slot -> deliveries
};
struct actor5_t;
struct model_t {
    std::vector<r::address_ptr_t> addrs;
    std::vector<actor5_t *> actors;
    std::vector<r::intrusive_ptr_t<actor5_t>> keep;
    std::vector<std::unique_ptr<sub_t>> subs;
    std::vector<std::unique_ptr<sent_t>> sent;
    std::vector<uint64_t> down_req; // event of the shutdown request per actor
    int budget = 0;
    uint64_t ev() { return ++W->ev_no; }
    void op(bool inside);
    void delivered(actor5_t &a, int type, int slot, const r::message_base_t &m, uint64_t id, bool intact);
};
model_t *M;

struct probe_t : r::plugin::plugin_base_t {
    const std::type_index &identity() const noexcept override {
        static const std::type_index id = typeid(probe_t);
        return id;
    }
    void activate(r::actor_base_t *a) noexcept override;
    template <int K> void on(msg_t<K> &m) noexcept;
    template <int K> r::subscription_info_ptr_t sub(const r::address_ptr_t &a) {
        return a == actor->get_address() && W->src.chance(50) ? subscribe(&probe_t::on<K>) : subscribe(&probe_t::on<K>, a);
    }
};
struct actor5_t : act_t {
    using act_t::act_t;
    using plugins_list_t = decltype(std::tuple_cat(std::declval<act_t::plugins_list_t>(), std::declval<std::tuple<probe_t>>()));
    probe_t *probe = nullptr;
    int idx = -1;
    template <int K, int S> void h(msg_t<K> &m) noexcept { on(K, S, m, m.payload.id, m.payload.intact()); }
    void on(int type, int slot, r::message_base_t &m, uint64_t id, bool intact) {
        M->delivered(*this, type, slot, m, id, intact);
    }
    template <int K> r::subscription_info_ptr_t sub_k(int slot, const r::address_ptr_t &a) {
        if (slot == 3)
            return probe->sub<K>(a);
        if (slot == 0 && a == address && W->src.chance(50))
            return subscribe(&actor5_t::h<K, 0>);
        if (slot == 0)
            return subscribe(&actor5_t::h<K, 0>, a);
        if (slot == 1)
            return subscribe(&actor5_t::h<K, 1>, a);
        return subscribe(r::lambda<msg_t<K>>([this](msg_t<K> &m) { on(K, 2, m, m.payload.id, m.payload.intact()); }), a);
    }
    r::subscription_info_ptr_t sub(int type, int slot, const r::address_ptr_t &a) {
        return type == 0 ? sub_k<0>(slot, a) : type == 1 ? sub_k<1>(slot, a) : sub_k<2>(slot, a);
    }
    template <int K> void unsub_k(int slot, r::address_ptr_t a, const r::handler_ptr_t &h) {
        if (slot == 0 && a == address && W->src.chance(50))
            unsubscribe(&actor5_t::h<K, 0>);
        else if (slot == 0)
            unsubscribe(&actor5_t::h<K, 0>, a);
        else if (slot == 1)
            unsubscribe(&actor5_t::h<K, 1>, a);
        else
            lifetime->unsubscribe(h, a);
    }
    sup_t &get_supervisor_sim() { return static_cast<sup_t &>(get_supervisor()); }
    void unsub(int type, int slot, r::address_ptr_t a, const r::handler_ptr_t &h, bool by_ptr) {
        if (by_ptr) {
            // the handler is unsubscribed through the subscription it belongs to
            lifetime->unsubscribe(h, a);
            return;
        }
        type == 0 ? unsub_k<0>(slot, a, h) : type == 1 ? unsub_k<1>(slot, a, h) : unsub_k<2>(slot, a, h);
    }
    void send_m(int type, const r::address_ptr_t &a, uint64_t id) {
        if (type == 0)
            send<payload_t<0>>(a, id, idx);
        else if (type == 1)
            send<payload_t<1>>(a, id, idx);
        else
            send<payload_t<2>>(a, id, idx);
    }
    bool usable() { return m->operational(); }
};

void probe_t::activate(r::actor_base_t *a) noexcept {
    static_cast<actor5_t *>(a)->probe = this;
    plugin_base_t::activate(a);
}
template <int K> void probe_t::on(msg_t<K> &m) noexcept {
    static_cast<actor5_t *>(actor)->on(K, 3, m, m.payload.id, m.payload.intact());
}

void model_t::op(bool inside) {
    auto &src = W->src;
    auto ai = (int)src.draw((uint32_t)actors.size());
    auto *a = actors[ai];
    switch (src.weighted({50, 25, 20, 2})) {
    case 0: { // send
        int t = src.draw(T);
        int d = src.draw((uint32_t)addrs.size());
        if (!a->usable())
            return;
        auto s = std::make_unique<sent_t>();
        s->id = sent.size() + 1;
        s->type = t;
        s->addr = d;
        s->ev = ev();
        sent.push_back(std::move(s));
        eng::trace("  %s sends M%d #%zu to @%d%s", a->m->name.c_str(), t, sent.size(), d, inside ? " (inside)" : "");
        a->send_m(t, addrs[d], sent.size());
        return;
    }
    case 1: { // subscribe
        int t = src.draw(T), slot = src.draw(SLOTS), d = src.draw((uint32_t)addrs.size());
        if (!a->usable() || down_req[ai])
            return;
        bool resub = false;
        for (auto &s : subs)
            if (s->actor == ai && s->type == t && s->slot == slot && s->addr == d) {
                if (s->unsub_ev == (uint64_t)-1)
                    return; // is subscribed
                resub = true;
            }
        if (resub)
            eng::label("resubscribe");
        auto s = std::make_unique<sub_t>();
        s->actor = ai;
        s->type = t;
        s->slot = slot;
        s->addr = d;
        s->sub_ev = ev();
        eng::trace("  %s subscribes M%d/%d on @%d%s", a->m->name.c_str(), t, slot, d, inside ? " (inside)" : "");
        s->info = a->sub(t, slot, addrs[d]);
        subs.push_back(std::move(s));
        return;
    }
    case 2: { // unsubscribe
        std::vector<sub_t *> c;
        for (auto &s : subs)
            if (s->actor == ai && s->unsub_ev == (uint64_t)-1 && s->slot < 3)
                c.push_back(s.get());
        if (c.empty() || !a->usable() || down_req[ai])
            return;
        auto *s = src.pick(c);
        bool by_ptr = src.chance(30);
        s->unsub_ev = s->may_end = ev();
        eng::trace("  %s unsubscribes M%d/%d from @%d%s", a->m->name.c_str(), s->type, s->slot, s->addr, inside ? " (inside)" : "");
        a->unsub(s->type, s->slot, addrs[s->addr], s->info->handler, by_ptr);
        s->info.reset();
        eng::label(inside ? "unsubscribe inside handler" : "unsubscribe");
        return;
    }
    default: {
        if (!a->usable() || down_req[ai])
            return;
        down_req[ai] = ev();
        for (auto &s : subs)
            if (s->actor == ai && s->unsub_ev == (uint64_t)-1) {
                s->unsub_ev = down_req[ai];
                s->info.reset();
            }
        eng::trace("  %s shuts down", a->m->name.c_str());
        a->do_shutdown();
        eng::label("actor shutdown");
    }
    }
}

void model_t::delivered(actor5_t &a, int type, int slot, const r::message_base_t &m, uint64_t id, bool intact) {
    ev();
    eng::trace("  %s/%d,%d <- #%llu", a.m->name.c_str(), type, slot, (unsigned long long)id);
    EXPECT(intact && id >= 1 && id <= sent.size(), "payload", "message payload corrupted");
    auto &s = *sent[id - 1];
    EXPECT(s.type == type, "wrong-type", "message #%llu of type %d delivered to a handler of type %d",
           (unsigned long long)id, s.type, type);
    EXPECT(m.address.get() == addrs[s.addr].get(), "wrong-address", "message #%llu carries another address", (unsigned long long)id);
    EXPECT(!a.m->down(), "dead-actor", "message #%llu delivered to a shut down actor", (unsigned long long)id);
    int may = 0;
    for (auto &b : subs)
        if (b->actor == a.idx && b->type == type && b->slot == slot && b->addr == s.addr && b->may_end > s.ev)
            ++may;
    int n = ++s.got[{a.idx, type, slot}];
    EXPECT(n <= may, may ? "duplicate" : "not-subscribed",
           "message #%llu delivered to %s handler %d/%d %d time(s), at most %d subscription(s) allow it",
           (unsigned long long)id, a.m->name.c_str(), type, slot, n, may);
    if (budget > 0) {
        --budget;
        auto k = W->src.draw(3);
        while (k--)
            op(true);
    }
}

void run(src_t &src) {
    world_t w(src);
    model_t model;
    M = &model;
    auto *L = w.new_loc();
    sup_opts_t o;
    o.loc = L;
    o.plain = src.chance(50);
    auto *root = make_root(o);
    std::vector<sup_t *> sups{root};
    if (src.chance(40)) { // nested supervisor in the same locality
        sup_opts_t c = o;
        c.plain = src.chance(50);
        sups.push_back(make_child_sup(*root, c));
    }
    int n = (int)src.range(1, 4);
    for (int i = 0; i < n; ++i) {
        auto a = make_actor<actor5_t>(*src.pick(sups));
        a->idx = i;
        model.actors.push_back(a.get());
        model.keep.push_back(a);
    }
    model.down_req.assign(n, 0);
    w.drain();
    for (auto *a : model.actors)
        EXPECT(a->usable(), "setup", "actor did not become operational");
    for (auto *a : model.actors)
        model.addrs.push_back(a->get_address());
    int extra = (int)src.range(0, 3);
    for (int i = 0; i < extra; ++i)
        model.addrs.push_back(src.pick(model.actors)->create_address());
    auto quiesce = [&] {
        w.drain();
        auto q = model.ev();
        for (auto &s : model.sent)
            if (s->quiesce == (uint64_t)-1) {
                s->quiesce = q;
                for (auto &b : model.subs)
                    if (b->type == s->type && b->addr == s->addr && b->sub_ev < s->ev && b->unsub_ev > q) {
                        int got = s->got.count({b->actor, b->type, b->slot}) ? s->got[{b->actor, b->type, b->slot}] : 0;
                        EXPECT(got >= 1, "lost", "message #%llu (M%d to @%d) was not delivered to subscribed %s handler %d/%d",
                               (unsigned long long)s->id, s->type, s->addr, model.actors[b->actor]->m->name.c_str(), b->type,
                               b->slot);
                        eng::count("required deliveries checked");
                    }
            }
    };
    model.budget = (int)src.range(0, 40);
    int ops = (int)src.range(1, eng::thorough() ? 120 : 60);
    for (int i = 0; i < ops; ++i) {
        model.op(false);
        if (src.chance(35))
            quiesce();
    }
    quiesce();
    unsigned deliveries = 0;
    for (auto &s : model.sent)
        for (auto &g : s->got)
            deliveries += g.second;
    bool unsub = std::any_of(model.subs.begin(), model.subs.end(), [](auto &s) { return s->unsub_ev != (uint64_t)-1; });
    eng::count("deliveries", deliveries);
    if (deliveries >= 3 && unsub)
        eng::nontrivial();
    for (auto &s : model.subs)
        s->info.reset();
    // the tree can still be taken down
    model.budget = 0;
    root->do_shutdown();
    w.drain();
    for (auto &m : w.mons)
        EXPECT(m->down(), "shutdown", "%s does not shut down", m->name.c_str());
    model.actors.clear();
    model.keep.clear();
    model.addrs.clear();
    check_nothing_left("leftover");
    M = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C05",
    "a random history of subscribe/unsubscribe/send/shutdown operations issued from outside and from inside handlers; "
    "non-trivial: at least 3 deliveries happened and at least one subscription was given up",
    60000, 1500000, 40, 8, 20, 0, run, nullptr};
