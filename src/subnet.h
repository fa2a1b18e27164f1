// Networks of subscribers over localities (C07), optionally with tagged handlers (C23).
#pragma once
#include "sim.h"
#include <map>
namespace sim {
namespace to {
struct tag {};
} // namespace to
} // namespace sim
template <> inline auto rotor::subscription_info_t::access<sim::to::tag, const void *>(const void *t) noexcept { return tag(t); }

namespace subnet {
using namespace sim;
constexpr uint64_t LIMIT = 500 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;

struct gen_t { // one subscription, from the call of subscribe() to the confirmation of the unsubscription
    int node, type, slot, addr;
    int sup = -1; // of the subscriber
    uint64_t sub_ev, conf_ev = NEVER, unsub_ev = NEVER, gone_ev = NEVER; // gone_ev: unsubscription is confirmed
    r::subscription_info_ptr_t info;
    r::handler_ptr_t h0;     // as it was subscribed
    const void *tag = nullptr;
    uint64_t tag_ev = 0;
    std::vector<std::pair<uint64_t, const void *>> old_tags; // tag and until when
    bool had_tag(const void *t, uint64_t since) const {
        if (tag == t)
            return true;
        for (auto &o : old_tags)
            if (o.second == t && o.first > since)
                return true;
        return false;
    }
};
struct offer_t { // what is currently offered to an interceptor
    r::message_base_t *msg;
    const void *tag;
    sup_t *sup;
    int runs = 0;
    int node = -1, type = -1, slot = -1;
};
inline const char tag_names[8] = {};
struct sent_t {
    uint64_t id;
    int type, addr, from_loc;
    uint64_t ev;
    bool checked = false;
    std::map<std::array<int, 3>, int> got;
    std::map<std::pair<int, const void *>, int> offers; // supervisor, tag
};
struct addr_t {
    r::address_ptr_t a;
    int sup; // monitor of the supervisor
    int loc;
};
struct node_i {
    mon_t *mo = nullptr;
    int idx = -1;
    uint64_t down_req = 0;
    bool held = false; // is shutting down, but holds a resource
    virtual ~node_i() = default;
    virtual void release() = 0;
    virtual r::actor_base_t &actor() = 0;
    virtual r::subscription_info_ptr_t sub(int type, int slot, const r::address_ptr_t &a) = 0;
    virtual void unsub(int type, int slot, r::address_ptr_t a, const r::handler_ptr_t &h, bool by_ptr) = 0;
    virtual void send_m(int type, const r::address_ptr_t &a, uint64_t id) = 0;
    bool usable() { return mo->operational() && !down_req; }
};

struct net_t {
    std::vector<addr_t> addrs;
    std::vector<node_i *> nodes; // by index, null: destroyed
    std::vector<std::unique_ptr<gen_t>> gens;
    std::vector<std::unique_ptr<sent_t>> sent;
    std::map<int, uint64_t> sup_stop; // supervisor -> event of the shutdown request
    std::map<r::address_t *, int> index;
    int budget = 0;
    bool stops = false, tags = false, holds = false;
    std::vector<offer_t *> offered; // innermost last
    std::map<int, uint64_t> local;  // locality -> last handled local message
    uint64_t foreign = 0, required = 0, gone = 0;
    uint64_t ev() { return ++W->ev_no; }
    void add_addr(const r::address_ptr_t &a) {
        auto &s = static_cast<sup_t &>(a->supervisor);
        if (index.emplace(a.get(), (int)addrs.size()).second)
            addrs.push_back({a, s.m->id, s.loc->id});
    }
    // supervisor, or anything above it, was requested to stop
    bool sup_gone(int m) {
        for (; m >= 0; m = W->mon(m).parent)
            if (sup_stop.count(m) || W->mon(m).stopping())
                return true;
        return false;
    }
    void op(node_i &n, bool inside);
    bool intercept(sup_t &s, r::message_ptr_t &m, const void *tag, const r::continuation_t &cont);
    void in_order(const sent_t &s, int loc);
    void delivered(node_i &n, int type, int slot, r::message_base_t &m, uint64_t id, bool intact);
    void confirmed(node_i &n, const r::subscription_point_t &p, bool sub);
    void quiesced();
    void quiesced_if_idle() {
        if (!W->any_work())
            quiesced();
    }
    void release(bool all) {
        for (auto *x : nodes)
            if (x && x->held) {
                W->in_loc(x->mo->loc, [&] { x->release(); });
                if (!all)
                    break;
            }
    }
};
inline net_t *N;

template <typename Base> struct node_t : Base, node_i {
    template <typename C> explicit node_t(C &c) : Base(c) {
        mo = Base::m;
        idx = (int)N->nodes.size();
        N->nodes.push_back(this);
    }
    ~node_t() {
        if (N)
            N->nodes[idx] = nullptr;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            // the confirmations arrive as messages, anybody may look at them
            pl.subscribe_actor(&node_t::on_confirmed);
            pl.subscribe_actor(&node_t::on_gone);
        });
    }
    void on_confirmed(r::message::subscription_t &m) noexcept {
        if (N)
            N->confirmed(*this, m.payload.point, true);
    }
    void on_gone(r::message::unsubscription_external_t &m) noexcept {
        if (N)
            N->confirmed(*this, m.payload.point, false);
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        if (N && N->holds && !mo->sup && W->src.chance(60)) {
            eng::trace("  %s holds a resource", mo->name.c_str());
            Base::resources->acquire();
            held = true;
            eng::label("shutting down subscriber holds a resource");
        }
    }
    void release() override {
        held = false;
        eng::trace("  %s releases its resource", mo->name.c_str());
        Base::resources->release();
    }
    r::actor_base_t &actor() override { return *this; }
    template <int K, int S> void h(msg_t<K> &m) noexcept {
        EXPECT(W->cur_loc == Base::m->loc, "wrong-locality", "a handler of %s (locality %d) runs in locality %d",
               Base::m->name.c_str(), Base::m->loc, W->cur_loc);
        EXPECT(!Base::m->down_done, "dead-actor", "#%llu is delivered to shut down %s", (unsigned long long)m.payload.id,
               Base::m->name.c_str());
        N->delivered(*this, K, S, m, m.payload.id, m.payload.intact());
    }
    template <int K> r::subscription_info_ptr_t sub_k(int slot, const r::address_ptr_t &a) {
        if (slot == 0)
            return Base::subscribe(&node_t::h<K, 0>, a);
        if (slot == 1)
            return Base::subscribe(&node_t::h<K, 1>, a);
        return Base::subscribe(r::lambda<msg_t<K>>([this](msg_t<K> &m) { this->template h<K, 2>(m); }), a);
    }
    r::subscription_info_ptr_t sub(int type, int slot, const r::address_ptr_t &a) override {
        return type == 0 ? sub_k<0>(slot, a) : sub_k<1>(slot, a);
    }
    template <int K> void unsub_k(int slot, r::address_ptr_t a, const r::handler_ptr_t &h_) {
        if (slot == 0)
            Base::unsubscribe(&node_t::h<K, 0>, a);
        else if (slot == 1)
            Base::unsubscribe(&node_t::h<K, 1>, a);
        else
            Base::lifetime->unsubscribe(h_, a);
    }
    void unsub(int type, int slot, r::address_ptr_t a, const r::handler_ptr_t &h_, bool by_ptr) override {
        if (by_ptr)
            return Base::lifetime->unsubscribe(h_, a);
        type == 0 ? unsub_k<0>(slot, a, h_) : unsub_k<1>(slot, a, h_);
    }
    void send_m(int type, const r::address_ptr_t &a, uint64_t id) override {
        if (type == 0)
            Base::template send<payload_t<0>>(a, id, idx);
        else
            Base::template send<payload_t<1>>(a, id, idx);
    }
};
struct anode_t;
// a plugin of the user, which subscribes on its own (slot 3)
struct probe_t : r::plugin::plugin_base_t {
    const std::type_index &identity() const noexcept override {
        static const std::type_index id = typeid(probe_t);
        return id;
    }
    void activate(r::actor_base_t *a) noexcept override;
    template <int K> void on(msg_t<K> &m) noexcept;
    template <int K> r::subscription_info_ptr_t sub(const r::address_ptr_t &a) { return subscribe(&probe_t::on<K>, a); }
};
struct anode_t : node_t<act_t> {
    using node_t<act_t>::node_t;
    using plugins_list_t = decltype(std::tuple_cat(std::declval<act_t::plugins_list_t>(), std::declval<std::tuple<probe_t>>()));
    probe_t *probe = nullptr;
    r::subscription_info_ptr_t sub(int type, int slot, const r::address_ptr_t &a) override {
        if (slot < 3)
            return node_t<act_t>::sub(type, slot, a);
        eng::label("handler of a plugin");
        return type == 0 ? probe->sub<0>(a) : probe->sub<1>(a);
    }
};
inline void probe_t::activate(r::actor_base_t *a) noexcept {
    static_cast<anode_t *>(a)->probe = this;
    plugin_base_t::activate(a);
}
template <int K> inline void probe_t::on(msg_t<K> &m) noexcept { static_cast<anode_t *>(actor)->h<K, 3>(m); }
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

inline void net_t::confirmed(node_i &n, const r::subscription_point_t &p, bool sub) {
    auto it = index.find(p.address.get());
    if (it == index.end())
        return;
    // of the equal ones the oldest one is confirmed first
    for (auto &g : gens)
        if (g->node == n.idx && g->addr == it->second && g->info && (g->info->handler == p.handler || g->h0 == p.handler)) {
            if (sub) {
                if (g->conf_ev == NEVER) {
                    g->conf_ev = ev();
                    eng::trace("  [loc %d] %s: subscription M%d/%d on @%d is confirmed", W->cur_loc, n.mo->name.c_str(), g->type,
                               g->slot, g->addr);
                }
            } else if (g->gone_ev == NEVER) {
                g->gone_ev = ev();
                g->info.reset();
                g->h0.reset();
                ++gone;
                eng::trace("  [loc %d] %s: unsubscription M%d/%d from @%d is confirmed", W->cur_loc, n.mo->name.c_str(), g->type,
                           g->slot, g->addr);
            }
            return;
        }
}

inline void net_t::delivered(node_i &n, int type, int slot, r::message_base_t &m, uint64_t id, bool intact) {
    auto now = ev();
    EXPECT(intact && id >= 1 && id <= sent.size(), "payload", "message payload corrupted");
    auto &s = *sent[id - 1];
    eng::trace("  [loc %d] %s/%d,%d <- #%llu", W->cur_loc, n.mo->name.c_str(), type, slot, (unsigned long long)id);
    EXPECT(s.type == type && m.address.get() == addrs[s.addr].a.get(), "wrong-message", "#%llu has another type or address",
           (unsigned long long)id);
    offer_t *of = !offered.empty() && offered.back()->msg == &m ? offered.back() : nullptr;
    if (of) { // runs on behalf of an interceptor
        EXPECT(of->sup == &n.actor().get_supervisor(), "foreign-interceptor", "the interceptor of another supervisor is used");
        if (of->runs++) {
            EXPECT(of->node == n.idx && of->type == type && of->slot == slot, "continuation", "one continuation runs different handlers");
            return;
        }
        of->node = n.idx;
        of->type = type;
        of->slot = slot;
    } else
        in_order(s, n.mo->loc);
    int may = 0; // subscriptions which could deliver it, including those that ended meanwhile
    bool ended = false, live = false, tag_ok = false;
    for (auto &g : gens)
        if (g->node == n.idx && g->type == type && g->slot == slot && g->addr == s.addr) {
            if (g->unsub_ev < s.ev || g->gone_ev < s.ev) {
                ended = true;
                continue;
            }
            ++may;
            if (g->gone_ev > now) {
                live = true;
                tag_ok |= g->tag == (of ? of->tag : nullptr);
            } else
                ended = true;
        }
    if (!live)
        may = 0;
    EXPECT(!may || tag_ok, of ? "wrong-tag" : "not-intercepted", "#%llu runs handler %d/%d of %s %s, but it is not tagged so",
           (unsigned long long)id, type, slot, n.mo->name.c_str(), of ? "by an interceptor with some tag" : "without an interceptor");
    int c = ++s.got[{n.idx, type, slot}];
    EXPECT(c <= may, may ? "duplicate" : ended ? "unsubscribed" : "not-subscribed",
           "#%llu is delivered to %s handler %d/%d %d time(s), at most %d subscription(s) allow it", (unsigned long long)id,
           n.mo->name.c_str(), type, slot, c, may);
    if (addrs[s.addr].loc != n.mo->loc)
        ++foreign;
    if (budget > 0) {
        auto k = W->src.draw(3);
        while (k-- && budget > 0)
            op(n, true);
    }
}

inline void net_t::in_order(const sent_t &s, int loc) {
    if (!tags || s.from_loc != loc || addrs[s.addr].loc != loc)
        return;
    auto &l = local[loc];
    EXPECT(s.id >= l, "order", "#%llu is handled after #%llu in locality %d", (unsigned long long)s.id, (unsigned long long)l, loc);
    l = s.id;
}

inline bool net_t::intercept(sup_t &sup, r::message_ptr_t &m, const void *tag, const r::continuation_t &cont) {
    EXPECT(W->cur_loc == sup.m->loc, "wrong-locality", "interceptor of locality %d runs in locality %d", sup.m->loc, W->cur_loc);
    uint64_t id = 0;
    if (m->type_index == msg_t<0>::message_type)
        id = static_cast<msg_t<0> &>(*m).payload.id;
    else if (m->type_index == msg_t<1>::message_type)
        id = static_cast<msg_t<1> &>(*m).payload.id;
    EXPECT(id >= 1 && id <= sent.size(), "foreign-message", "a message nobody subscribed with a tag is offered to the interceptor");
    auto now = ev();
    auto &s = *sent[id - 1];
    in_order(s, sup.m->loc);
    int may = 0;
    bool live = false;
    for (auto &g : gens)
        if (g->had_tag(tag, s.ev) && g->addr == s.addr && g->type == s.type && g->unsub_ev > s.ev && g->gone_ev > s.ev &&
            g->sup == sup.m->id) {
            ++may;
            live |= g->gone_ev > now && g->tag == tag;
        }
    if (!live)
        may = 0;
    int c = ++s.offers[{sup.m->id, tag}];
    eng::trace("  [loc %d] #%llu is offered to the interceptor of %s", W->cur_loc, (unsigned long long)id, sup.m->name.c_str());
    EXPECT(tag && c <= may, "offers", "#%llu is offered %d time(s) to the interceptor of %s with a tag which %d of its handlers have",
           (unsigned long long)id, c, sup.m->name.c_str(), may);
    eng::count("offers to interceptors");
    offer_t of{m.get(), tag, &sup};
    offered.push_back(&of);
    int k = (int)W->src.weighted({55, 25, 15, 5}); // once, not at all, twice, 3 times
    k = k == 0 ? 1 : k == 1 ? 0 : k;
    eng::label(k == 0 ? "suppressed by the interceptor" : k == 1 ? "continued by the interceptor" : "continued repeatedly");
    for (int i = 0; i < k; ++i) {
        EXPECT(offered.back() == &of, "internal", "nesting");
        cont();
        EXPECT(of.runs == i + 1, "continuation", "the handler ran %d time(s) after %d continuation(s)", of.runs, i + 1);
    }
    EXPECT(of.runs == k, "continuation", "the handler ran %d time(s) after %d continuation(s)", of.runs, k);
    offered.pop_back();
    return true;
}

inline void net_t::op(node_i &n, bool inside) {
    auto &src = W->src;
    --budget;
    int d = (int)src.draw((uint32_t)addrs.size());
    int t = (int)src.draw(2), slot = (int)src.draw(n.mo->sup ? 3 : 4);
    const char *where = inside ? " (inside)" : "";
    switch (src.weighted({50, 28, 18, stops ? 2u : 0u, tags ? 25u : 0u})) {
    case 0: {
        if (!n.mo->operational())
            return;
        auto s = std::make_unique<sent_t>();
        s->id = sent.size() + 1;
        s->type = t;
        s->addr = d;
        s->from_loc = n.mo->loc;
        s->ev = ev();
        sent.push_back(std::move(s));
        eng::trace("  [loc %d] %s sends M%d #%zu to @%d (loc %d)%s", n.mo->loc, n.mo->name.c_str(), t, sent.size(), d, addrs[d].loc, where);
        n.send_m(t, addrs[d].a, sent.size());
        return;
    }
    case 1: {
        if (!n.usable() || sup_gone(addrs[d].sup))
            return;
        for (auto &g : gens)
            if (g->node == n.idx && g->type == t && g->slot == slot && g->addr == d && g->unsub_ev == NEVER)
                return; // is subscribed
        auto g = std::make_unique<gen_t>();
        g->node = n.idx;
        g->type = t;
        g->slot = slot;
        g->addr = d;
        g->sup = static_cast<sup_t &>(n.actor().get_supervisor()).m->id;
        g->sub_ev = ev();
        eng::trace("  [loc %d] %s subscribes M%d/%d on @%d (loc %d)%s", n.mo->loc, n.mo->name.c_str(), t, slot, d, addrs[d].loc, where);
        g->info = n.sub(t, slot, addrs[d].a);
        g->h0 = g->info->handler;
        gens.push_back(std::move(g));
        return;
    }
    case 2: {
        std::vector<gen_t *> c;
        for (auto &g : gens)
            if (g->node == n.idx && g->unsub_ev == NEVER && g->slot < 3)
                c.push_back(g.get());
        if (c.empty() || !n.usable())
            return;
        auto *g = src.pick(c);
        bool by_ptr = src.chance(30);
        g->unsub_ev = ev();
        eng::trace("  [loc %d] %s unsubscribes M%d/%d from @%d%s", n.mo->loc, n.mo->name.c_str(), g->type, g->slot, g->addr, where);
        if (g->conf_ev == NEVER)
            eng::label("unsubscribed before the confirmation");
        n.unsub(g->type, g->slot, addrs[g->addr].a, g->info->handler, by_ptr);
        return;
    }
    case 4: {
        std::vector<gen_t *> c;
        for (auto &g : gens)
            if (g->node == n.idx && g->unsub_ev == NEVER)
                c.push_back(g.get());
        if (c.empty() || !n.usable())
            return;
        auto *g = src.pick(c);
        auto i = src.draw(9);
        g->old_tags.emplace_back(ev(), g->tag);
        g->tag = i ? &tag_names[i - 1] : r::tags::io;
        g->tag_ev = ev();
        eng::trace("  [loc %d] %s tags M%d/%d on @%d with %d%s", n.mo->loc, n.mo->name.c_str(), g->type, g->slot, g->addr, (int)i, where);
        eng::label(addrs[g->addr].loc != n.mo->loc ? "tagged across localities" : "tagged");
        if (i)
            g->info->access<sim::to::tag, const void *>(g->tag);
        else
            g->info->tag_io();
        return;
    }
    default: {
        if (!n.usable())
            return;
        n.down_req = ev();
        if (n.mo->sup) {
            sup_stop[n.mo->id] = n.down_req;
            eng::label("supervisor is shut down");
        } else
            eng::label("subscriber is shut down");
        eng::trace("  [loc %d] %s shuts down%s", n.mo->loc, n.mo->name.c_str(), where);
        n.actor().do_shutdown();
    }
    }
}

// there is nothing on the way any more
inline void net_t::quiesced() {
    auto now = ev();
    for (auto &s : sent) {
        if (s->checked)
            continue;
        s->checked = true;
        if (sup_gone(addrs[s->addr].sup))
            continue;
        for (auto &g : gens) {
            if (g->addr != s->addr || g->type != s->type || g->conf_ev > s->ev || g->unsub_ev < now)
                continue;
            auto *n = nodes[g->node];
            if (!n)
                continue;
            // (it is subscribed as long as it holds the resource)
            if (n->held ? sup_gone(n->mo->parent) : n->down_req || n->mo->stopping() || sup_gone(n->mo->id))
                continue;
            if (n->held && s->ev > n->mo->at[H_SHUTDOWN_START])
                eng::count("required deliveries to shutting down subscribers");
            if (g->tag) {
                if (g->tag_ev > s->ev)
                    continue;
                auto *sup = static_cast<sup_t *>(&n->actor().get_supervisor());
                int must = 0;
                for (auto &x : gens)
                    if (x->tag == g->tag && x->addr == s->addr && x->type == s->type && x->conf_ev < s->ev && x->tag_ev < s->ev &&
                        x->unsub_ev > now && nodes[x->node] && !nodes[x->node]->down_req && !nodes[x->node]->mo->stopping() &&
                        &nodes[x->node]->actor().get_supervisor() == sup)
                        ++must;
                int c = s->offers[{sup->m->id, g->tag}];
                EXPECT(c >= must, "not-offered", "#%llu (M%d to @%d of locality %d) is offered %d time(s) to the interceptor of %s, but %d of "
                       "its handlers are tagged so", (unsigned long long)s->id, s->type, s->addr, addrs[s->addr].loc, c, sup->m->name.c_str(), must);
                ++required;
                if (addrs[s->addr].loc != n->mo->loc)
                    eng::count("required offers to another locality");
                continue;
            }
            if (g->tag_ev > s->ev)
                continue;
            int got = s->got.count({g->node, g->type, g->slot}) ? s->got[{g->node, g->type, g->slot}] : 0;
            EXPECT(got >= 1, "lost", "#%llu (M%d to @%d of locality %d) is not delivered to %s (locality %d)",
                   (unsigned long long)s->id, s->type, s->addr, addrs[s->addr].loc, n->mo->name.c_str(), n->mo->loc);
            EXPECT(got == 1, "duplicate", "#%llu is delivered %d times", (unsigned long long)s->id, got);
            ++required;
            if (addrs[s->addr].loc != n->mo->loc)
                eng::count("required deliveries to another locality");
        }
    }
}

inline void run(src_t &src, int min_loc, bool tags) {
    world_t w(src);
    net_t n;
    N = &n;
    n.tags = tags;
    int nloc = (int)src.range(min_loc, 3);
    std::vector<sup_t *> sups;
    for (int i = 0; i < nloc; ++i) {
        sup_opts_t o;
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        if (i == 0 || src.chance(60))
            sups.push_back(make_root<snode_t, spnode_t>(o));
        else
            sups.push_back(make_child_sup<snode_t, spnode_t>(*src.pick(sups), o));
        if (src.chance(30))
            sups.push_back(make_child_sup<snode_t, spnode_t>(*sups.back(), o));
    }
    int na = (int)src.range(2, 6);
    std::vector<r::intrusive_ptr_t<anode_t>> actors;
    for (int i = 0; i < na; ++i)
        actors.push_back(make_actor<anode_t>(*src.pick(sups)));
    w.settle(0);
    for (auto &m : w.mons)
        EXPECT(m->operational(), "setup", "%s is not operational", m->name.c_str());
    if (tags)
        for (auto *s : sups)
            s->intercept_fn = [s](auto &m, const void *tag, auto &cont) { return N && N->intercept(*s, m, tag, cont); };
    for (auto *x : n.nodes) {
        n.add_addr(x->actor().get_address());
        if (src.chance(25)) {
            struct open_t : r::actor_base_t {
                using r::actor_base_t::create_address;
            };
            n.add_addr(static_cast<open_t &>(x->actor()).create_address());
        }
    }
    n.stops = src.chance(50);
    n.holds = n.stops && src.chance(60);
    n.budget = (int)src.range(10, eng::thorough() ? 300 : 150);
    int steps = (int)src.range(10, eng::thorough() ? 300 : 150);
    for (int i = 0; i < steps && n.budget > 0; ++i) {
        auto k = src.weighted({50, 45, 8, n.holds ? 5u : 0u});
        if (k == 3) {
            n.quiesced_if_idle();
            n.release(src.chance(50));
            continue;
        }
        if (k == 0 && w.step(w.now))
            continue;
        if (k == 2) {
            w.drain();
            n.quiesced();
            continue;
        }
        std::vector<node_i *> l;
        for (auto *x : n.nodes)
            if (x && x->mo->operational())
                l.push_back(x);
        if (l.empty())
            break;
        auto *x = src.pick(l);
        w.in_loc(x->mo->loc, [&] {
            for (auto c = src.range(1, 3); c > 0 && n.budget > 0; --c)
                n.op(*x, false);
        });
    }
    n.budget = 0;
    w.settle(w.now + LIMIT);
    n.quiesced();
    n.holds = false;
    n.release(true);
    w.settle(w.now + LIMIT);
    n.quiesced();
    eng::count("messages sent", n.sent.size());
    eng::count("deliveries to another locality", n.foreign);
    eng::count("confirmed unsubscriptions", n.gone);
    eng::count("required deliveries", n.required);
    if (n.foreign >= 2 && n.required >= 1)
        eng::nontrivial();
    if (src.chance(50)) // somebody goes on sending while everything is taken down
        n.budget = 30;
    std::vector<sup_t *> roots;
    for (auto &k : w.keep)
        if (k->m->parent < 0)
            roots.push_back(k.get());
    while (!roots.empty()) {
        auto i = src.draw((uint32_t)roots.size());
        auto *s = roots[i];
        roots.erase(roots.begin() + i);
        n.sup_stop[s->m->id] = n.ev();
        w.in_loc(s->loc->id, [&] { s->do_shutdown(); });
        for (auto c = src.range(0, 10); c > 0; --c)
            w.step(w.now);
    }
    w.settle(w.now + LIMIT);
    for (auto &m : w.mons)
        EXPECT(m->down(), "shutdown", "%s does not shut down", m->name.c_str());
    actors.clear();
    n.gens.clear();
    n.addrs.clear();
    check_nothing_left("leftover");
    N = nullptr;
}
} // namespace subnet
