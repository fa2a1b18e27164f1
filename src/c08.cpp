// C08: every request gets exactly one response: the first reply, an error, or a timeout
#include "sim.h"
#include <map>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;

struct res_a { // responses
    uint64_t reply = 0, check = 0;
    res_a() = default;
    res_a(uint64_t r_) : reply{r_}, check{r_ * 7 + 1} {}
};
struct res_b : r::arc_base_t<res_b> {
    uint64_t reply = 0, check = 0;
    res_b(uint64_t r_ = 0) : reply{r_}, check{r_ * 7 + 1} {}
};
struct req_a {
    using response_t = res_a;
    uint64_t id, check;
    req_a(uint64_t i) : id{i}, check{i * 13 + 5} {}
};
struct req_b {
    using response_t = r::intrusive_ptr_t<res_b>;
    uint64_t id, check;
    req_b(uint64_t i) : id{i}, check{i * 13 + 5} {}
};
struct req_c : r::arc_base_t<req_c> {
    using response_t = r::intrusive_ptr_t<res_b>;
    uint64_t id, check;
    req_c(uint64_t i) : id{i}, check{i * 13 + 5} {}
};
template <int K> struct types;
template <> struct types<0> { using req = req_a; };
template <> struct types<1> { using req = req_b; };
template <> struct types<2> { using req = req_c; };
template <int K> using treq = typename types<K>::req;
template <int K> using req_m = typename r::request_traits_t<treq<K>>::request::message_t;
template <int K> using res_m = typename r::request_traits_t<treq<K>>::response::message_t;
inline uint64_t rid(const req_a &q) { return q.id; }
inline uint64_t rid(const req_b &q) { return q.id; }
inline uint64_t rid(const r::intrusive_ptr_t<req_c> &q) { return q->id; }
inline bool okq(const req_a &q) { return q.check == q.id * 13 + 5; }
inline bool okq(const req_b &q) { return q.check == q.id * 13 + 5; }
inline bool okq(const r::intrusive_ptr_t<req_c> &q) { return q && q->check == q->id * 13 + 5; }
inline uint64_t rep(const res_a &q) { return q.check == q.reply * 7 + 1 ? q.reply : NEVER; }
inline uint64_t rep(const r::intrusive_ptr_t<res_b> &q) { return q && q->check == q->reply * 7 + 1 ? q->reply : NEVER; }

struct node_i;
struct rec_t { // a request
    uint64_t id;
    int type, issuer, receiver; // receiver: node which gets the response
    int loc;                    // of the issuer
    r::request_id_t rid = 0;
    uint64_t ev, deadline;
    bool cancelled = false;
    bool late_issue = false; // made when the issuer was not operational any more
    r::message_ptr_t msg;
    struct reply_t {
        uint64_t ev;
        int loc;
        uint64_t val; // 0: error
        r::extended_error_ptr_t ee;
    };
    std::vector<reply_t> replies;
    int outcomes = 0;
    bool timed_out() const {
        for (auto &f : W->fired)
            if (f.first == rid && f.second == loc)
                return true;
        return false;
    }
};
struct addr_t {
    r::address_ptr_t a;
    int owner; // node that gets what is sent there, -1 nobody
};
struct net_t {
    std::vector<node_i *> nodes;
    std::vector<mon_t *> mons; // by node
    std::vector<std::unique_ptr<rec_t>> recs;
    std::vector<addr_t> addrs;
    uint64_t replies = 0, by_reply = 0, by_error = 0, by_timeout = 0, dropped = 0, remote = 0;
    int budget = 0;
    uint64_t ev() { return ++W->ev_no; }
    bool gone(int node) {
        for (int m = mons[node]->id; m >= 0; m = W->mon(m).parent)
            if (W->mon(m).stopping())
                return true;
        return false;
    }
    void quiesced(bool final_);
};
net_t *N;

struct node_i {
    mon_t *mo = nullptr;
    int idx = -1;
    virtual ~node_i() = default;
    virtual void act(bool inside) = 0;
    virtual r::actor_base_t &actor() = 0;
};

template <typename Base> struct node_t : Base, node_i {
    std::vector<std::pair<int, r::message_ptr_t>> kept;
    int extra;
    template <typename C> explicit node_t(C &c) : Base(c) {
        mo = Base::m;
        idx = (int)N->nodes.size();
        N->nodes.push_back(this);
        N->mons.push_back(mo);
        extra = (int)W->src.range(0, 1);
    }
    ~node_t() {
        if (N)
            N->nodes[idx] = nullptr;
    }
    r::actor_base_t &actor() override { return *this; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            std::vector<r::address_ptr_t> own{Base::address};
            if (extra)
                own.push_back(Base::create_address());
            for (auto &a : own) {
                pl.subscribe_actor(&node_t::template on_req<0>, a);
                pl.subscribe_actor(&node_t::template on_req<1>, a);
                pl.subscribe_actor(&node_t::template on_req<2>, a);
                pl.subscribe_actor(&node_t::template on_res<0>, a);
                pl.subscribe_actor(&node_t::template on_res<1>, a);
                pl.subscribe_actor(&node_t::template on_res<2>, a);
                N->addrs.push_back({a, idx});
            }
            if (W->src.chance(20)) // nobody listens there
                N->addrs.push_back({Base::create_address(), -1});
        });
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        if (N && N->budget > 0 && W->src.chance(20))
            request_one();
    }
    void shutdown_finish() noexcept override {
        kept.clear();
        Base::shutdown_finish();
    }
    template <int K> void reply_k(r::message_ptr_t &msg) {
        auto &m = static_cast<req_m<K> &>(*msg);
        auto &rec = *N->recs[rid(m.payload.request_payload) - 1];
        ++N->replies;
        rec_t::reply_t rp{N->ev(), Base::m->loc, 0, {}};
        bool error = W->src.chance(20);
        if (!error)
            rp.val = N->replies;
        else
            rp.ee = Base::make_error(r::make_error_code(r::error_code_t::cancelled));
        rec.replies.push_back(rp);
        eng::trace("  [loc %d] %s replies to #%llu with %llu", Base::m->loc, Base::m->name.c_str(), (unsigned long long)rec.id,
                   (unsigned long long)rp.val);
        if (error)
            Base::reply_with_error(m, rp.ee);
        else
            Base::reply_to(m, rp.val);
    }
    void reply(int k, r::message_ptr_t &msg) { k == 0 ? reply_k<0>(msg) : k == 1 ? reply_k<1>(msg) : reply_k<2>(msg); }
    template <int K> void on_req(req_m<K> &m) noexcept {
        if (!N)
            return;
        EXPECT(!Base::m->down_done, "dead-actor", "a request is handled by shut down %s", Base::m->name.c_str());
        auto &q = m.payload.request_payload;
        EXPECT(okq(q) && rid(q) >= 1 && rid(q) <= N->recs.size(), "payload", "request payload corrupted");
        auto &rec = *N->recs[rid(q) - 1];
        EXPECT(rec.type == K && rec.msg.get() == &m, "payload", "another request is delivered");
        eng::trace("  [loc %d] %s gets request #%llu", Base::m->loc, Base::m->name.c_str(), (unsigned long long)rec.id);
        if (W->src.chance(15))
            act(true);
        r::message_ptr_t ptr(&m);
        switch (W->src.weighted({45, 30, 10, 15})) {
        case 0:
            reply(K, ptr);
            if (W->src.chance(15))
                reply(K, ptr); // once more
            break;
        case 1:
            kept.emplace_back(K, ptr);
            break;
        case 2:
            reply(K, ptr);
            kept.emplace_back(K, ptr);
            break;
        default:
            break;
        }
        if (W->src.chance(15))
            act(true);
    }
    template <int K> void on_res(res_m<K> &m) noexcept {
        if (!N)
            return;
        auto *name = Base::m->name.c_str();
        EXPECT(!Base::m->down_done, "dead-actor", "a response is handled by shut down %s", name);
        EXPECT(m.payload.req && okq(m.payload.req->payload.request_payload), "payload", "response does not carry the request");
        auto id = rid(m.payload.req->payload.request_payload);
        auto &rec = *N->recs.at(id - 1);
        EXPECT(rec.msg.get() == m.payload.req.get() && rec.type == K, "payload", "response carries another request");
        EXPECT(rec.rid == m.payload.request_id(), "payload", "response has another request id");
        EXPECT(rec.receiver == idx, "wrong-receiver", "the response to #%llu is received by %s", (unsigned long long)id, name);
        EXPECT(!N->mons[rec.issuer]->down_done || Base::m->loc != rec.loc || rec.issuer != rec.receiver, "dead-issuer",
               "response to #%llu after the shutdown of its issuer", (unsigned long long)id);
        EXPECT(++rec.outcomes == 1, "duplicate", "#%llu is answered %d times", (unsigned long long)id, rec.outcomes);
        EXPECT(!rec.cancelled, "cancelled", "#%llu is answered though it was cancelled", (unsigned long long)id);
        auto &ee = m.payload.ee;
        if (ee && ee->ec == r::make_error_code(r::error_code_t::request_timeout)) {
            EXPECT(W->now >= rec.deadline, "early-timeout", "#%llu times out at %llu, the deadline is %llu", (unsigned long long)id,
                   (unsigned long long)W->now, (unsigned long long)rec.deadline);
            EXPECT(rec.timed_out(), "early-timeout", "timeout of #%llu without its timer", (unsigned long long)id);
            EXPECT(ee->request.get() == rec.msg.get(), "payload", "the timeout error does not name the request");
            ++N->by_timeout;
            eng::trace("  [loc %d] %s: #%llu timed out", Base::m->loc, name, (unsigned long long)id);
        } else {
            EXPECT(!rec.timed_out(), "late", "the reply to #%llu arrives after its timeout", (unsigned long long)id);
            EXPECT(!rec.replies.empty(), "nobody-replied", "#%llu is answered by nobody", (unsigned long long)id);
            // the first one of some locality
            bool ok = false;
            std::set<int> locs;
            for (auto &rp : rec.replies)
                if (locs.insert(rp.loc).second)
                    ok |= ee ? rp.ee == ee : (!rp.ee && rp.val == rep(m.payload.res));
            EXPECT(ok, "not-first", "#%llu is answered with something else than the first reply to it", (unsigned long long)id);
            ee ? ++N->by_error : ++N->by_reply;
            if (rec.replies[0].loc != rec.loc)
                ++N->remote;
            eng::trace("  [loc %d] %s: #%llu is answered", Base::m->loc, name, (unsigned long long)id);
        }
        if (W->src.chance(25))
            act(true);
    }
    template <int K> void issue(const addr_t &to, const addr_t *via) {
        auto rec = std::make_unique<rec_t>();
        auto &q = *rec;
        q.id = N->recs.size() + 1;
        q.type = K;
        q.issuer = idx;
        q.receiver = via ? via->owner : idx;
        q.loc = Base::m->loc;
        uint64_t t = W->src.chance(25) ? FAR : (uint64_t)W->src.range(0, 12) * MS;
        q.deadline = W->now + t;
        q.late_issue = !Base::m->operational();
        q.ev = N->ev();
        N->recs.push_back(std::move(rec));
        eng::trace("  [loc %d] %s requests #%llu (type %d) from %s with timeout %llu%s", Base::m->loc, Base::m->name.c_str(),
                   (unsigned long long)q.id, K, to.owner < 0 ? "nobody" : N->mons[to.owner]->name.c_str(), (unsigned long long)t,
                   via ? " (via another address)" : "");
        auto finish = [&](auto &&b) {
            // the message is only known to the builder
            q.rid = b.send(us(t));
        };
        // catches the request message as it is put
        struct peek_t : r::supervisor_t {
            static r::message_ptr_t last(r::supervisor_t &s) {
                auto &p = static_cast<peek_t &>(s);
                auto &rm = p.request_map;
                r::request_id_t best = 0;
                for (auto &x : rm)
                    best = std::max(best, x.first);
                return rm.at(best).request_message;
            }
        };
        if (via)
            finish(Base::template request_via<treq<K>>(to.a, via->a, q.id));
        else
            finish(Base::template request<treq<K>>(to.a, q.id));
        q.msg = peek_t::last(Base::get_supervisor());
    }
    void request_one() {
        --N->budget;
        auto to = W->src.pick(N->addrs);
        addr_t via{};
        bool has_via = W->src.chance(25);
        if (has_via) {
            via = W->src.pick(N->addrs);
            has_via = via.owner >= 0 && (via.owner == idx || W->src.chance(40));
        }
        switch (W->src.draw(3)) {
        case 0:
            return issue<0>(to, has_via ? &via : nullptr);
        case 1:
            return issue<1>(to, has_via ? &via : nullptr);
        default:
            return issue<2>(to, has_via ? &via : nullptr);
        }
    }
    void act(bool inside) override {
        if (N->addrs.empty() || N->budget <= 0 || !Base::m->operational())
            return;
        switch (W->src.weighted({60, 30, 4, inside ? 0u : 3u})) {
        case 0:
            return request_one();
        case 1:
            if (!kept.empty()) {
                --N->budget;
                auto i = W->src.draw((uint32_t)kept.size());
                auto m = kept[i];
                if (W->src.chance(85))
                    kept.erase(kept.begin() + i);
                reply(m.first, m.second);
            }
            return;
        case 2: { // cancel own request (as the supervisor does for the actors which are gone)
            std::vector<rec_t *> l;
            for (auto &q : N->recs)
                if (q->issuer == idx && !q->outcomes && !q->cancelled && !q->timed_out() && outstanding(q->rid))
                    l.push_back(q.get());
            if (l.empty())
                return;
            --N->budget;
            auto *q = W->src.pick(l);
            q->cancelled = true;
            eng::trace("  [loc %d] %s cancels #%llu", Base::m->loc, Base::m->name.c_str(), (unsigned long long)q->id);
            static_cast<sup_t &>(Base::get_supervisor()).cancel_timer(q->rid);
            ++N->dropped;
            return;
        }
        case 3:
            eng::trace("  [loc %d] %s shuts down", Base::m->loc, Base::m->name.c_str());
            eng::label(Base::m->sup ? "supervisor is shut down" : "actor is shut down");
            Base::do_shutdown();
        }
    }
    bool outstanding(r::request_id_t id) {
        struct peek_t : r::supervisor_t {
            static bool has(r::supervisor_t &s, r::request_id_t id) { return static_cast<peek_t &>(s).request_map.count(id) > 0; }
        };
        return peek_t::has(Base::get_supervisor(), id);
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

// nothing is on the way
void net_t::quiesced(bool final_) {
    for (auto &q : recs) {
        if (q->outcomes || q->cancelled || q->late_issue || gone(q->issuer) || gone(q->receiver))
            continue;
        EXPECT(!q->timed_out(), "no-timeout", "the timeout of #%llu expired, but there is no response", (unsigned long long)q->id);
        EXPECT(q->replies.empty(), "lost", "#%llu was replied in time, but there is no response", (unsigned long long)q->id);
        EXPECT(!final_ || q->deadline > W->now, "no-response", "there is no response to #%llu (deadline %llu, now %llu)",
               (unsigned long long)q->id, (unsigned long long)q->deadline, (unsigned long long)W->now);
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    int nloc = (int)src.range(1, 3);
    std::vector<sup_t *> sups;
    for (int i = 0; i < nloc; ++i) {
        sup_opts_t o;
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        if (i == 0 || src.chance(50))
            sups.push_back(make_root<snode_t, spnode_t>(o));
        else
            sups.push_back(make_child_sup<snode_t, spnode_t>(*src.pick(sups), o));
        if (src.chance(30))
            sups.push_back(make_child_sup<snode_t, spnode_t>(*sups.back(), o));
    }
    int na = (int)src.range(1, 5);
    for (int i = 0; i < na; ++i)
        make_actor<anode_t>(*src.pick(sups));
    w.settle(0);
    for (auto &m : w.mons)
        EXPECT(m->operational(), "setup", "%s is not operational", m->name.c_str());
    n.budget = (int)src.range(5, eng::thorough() ? 200 : 80);
    int steps = (int)src.range(5, 150);
    for (int i = 0; i < steps && n.budget > 0; ++i) {
        auto k = src.weighted({55, 35, 10});
        if (k == 0 && w.step(w.now + 10 * MS))
            continue;
        if (k == 2) {
            w.drain();
            n.quiesced(false);
            continue;
        }
        std::vector<node_i *> l;
        for (auto *x : n.nodes)
            if (x && x->mo->operational())
                l.push_back(x);
        if (l.empty())
            break;
        auto *x = src.pick(l);
        w.in_loc(x->mo->loc, [&] {
            for (auto c = src.range(1, 3); c > 0; --c)
                x->act(false);
        });
    }
    bool rush = src.chance(30); // take everything down with requests on the way
    if (!rush) {
        w.settle(w.now + LIMIT);
        n.quiesced(true);
        w.settle(w.now + 2 * FAR);
        n.quiesced(true);
    }
    n.budget = rush ? 20 : 0;
    std::vector<sup_t *> roots;
    for (auto &k : w.keep)
        if (k->m->parent < 0)
            roots.push_back(k.get());
    while (!roots.empty()) {
        auto i = src.draw((uint32_t)roots.size());
        auto *s = roots[i];
        roots.erase(roots.begin() + i);
        if (!s->m->stopping())
            w.in_loc(s->loc->id, [&] { s->do_shutdown(); });
        for (auto c = src.range(0, 10); c > 0; --c)
            w.step(w.now + 10 * MS);
    }
    w.settle(w.now + LIMIT);
    for (auto &m : w.mons)
        EXPECT(m->down(), "shutdown", "%s does not shut down", m->name.c_str());
    eng::count("requests", n.recs.size());
    eng::count("replies made", n.replies);
    eng::count("answered by a reply", n.by_reply);
    eng::count("answered by an error", n.by_error);
    eng::count("answered by a timeout", n.by_timeout);
    eng::count("answered from another locality", n.remote);
    eng::count("cancelled", n.dropped);
    if (n.by_reply + n.by_error >= 1 && n.by_timeout >= 1)
        eng::nontrivial();
    for (auto &q : n.recs)
        q->msg.reset();
    n.recs.clear();
    n.addrs.clear();
    N = nullptr;
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C08",
    "2-9 actors and supervisors in 1-3 localities request each other (also addresses nobody listens to, actors being shut down, other "
    "reply addresses) with random timeouts, reply at once, later, repeatedly, with errors or never; virtual time advances at random; "
    "non-trivial: at least one request was answered by a reply and one by a timeout",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
