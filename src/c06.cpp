// C06: messages from one sender to one receiver arrive in sending order
#include "sim.h"
#include <map>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;

struct note_t { // payload of a request and of its response
    int from;
    uint64_t seq;
};
struct res_p {
    int from;
    uint64_t seq;
};
struct req_p {
    using response_t = res_p;
    int from;
    uint64_t seq;
    req_p(int f, uint64_t s) : from{f}, seq{s} {}
};
using req_m = r::request_traits_t<req_p>::request::message_t;
using res_m = r::request_traits_t<req_p>::response::message_t;

struct addr_t {
    r::address_ptr_t a;
    int loc;
};
struct node_i;
struct net_t {
    src_t &src;
    uint64_t seq = 0;
    int budget = 0;
    std::vector<addr_t> addrs;
    std::vector<node_i *> nodes;
    std::map<uint64_t, std::pair<int, int>> sent; // seq -> sending locality, locality of the address
    std::map<std::array<int, 3>, uint64_t> streams;
    std::map<int, uint64_t> local; // locality -> last handled local message
    uint64_t handled = 0, remote = 0, responses = 0, foreign = 0;
    explicit net_t(src_t &s) : src{s} {}
};
net_t *N;

struct node_i {
    mon_t *mo = nullptr;
    virtual ~node_i() = default;
    virtual void act() = 0;
    virtual void open(int i) = 0;
    virtual void listen(const r::address_ptr_t &a) = 0;
    virtual r::actor_base_t &actor() = 0;
};

template <typename Base> struct node_t : Base, node_i {
    std::vector<r::intrusive_ptr_t<req_m>> kept;
    std::vector<r::address_ptr_t> own;
    int extra;
    template <typename C> explicit node_t(C &c) : Base(c) {
        mo = Base::m;
        N->nodes.push_back(this);
        extra = (int)W->src.range(0, 1);
    }
    ~node_t() { N->nodes.erase(std::find(N->nodes.begin(), N->nodes.end(), this)); }
    r::actor_base_t &actor() override { return *this; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        Base::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            pl.subscribe_actor(&node_t::on_a);
            pl.subscribe_actor(&node_t::on_b);
            pl.subscribe_actor(&node_t::on_req);
            pl.subscribe_actor(&node_t::on_res);
            own.push_back(Base::address);
            for (int i = 0; i < extra; ++i) {
                own.push_back(Base::create_address());
                pl.subscribe_actor(&node_t::on_a, own.back());
                pl.subscribe_actor(&node_t::on_b, own.back());
                pl.subscribe_actor(&node_t::on_req, own.back());
            }
            for (auto &a : own)
                N->addrs.push_back({a, Base::m->loc});
        });
    }
    void open(int) override {}
    void listen(const r::address_ptr_t &a) override {
        if (std::find(own.begin(), own.end(), a) != own.end())
            return;
        own.push_back(a);
        Base::subscribe(&node_t::on_a, a);
        ++N->foreign;
    }
    void got(int from, uint64_t seq, const char *what) {
        EXPECT(!Base::m->down_done, "after-shutdown", "%s handles a message after its shutdown", Base::m->name.c_str());
        ++N->handled;
        auto s = N->sent.at(seq);
        eng::trace("[loc %d] %s gets %s #%llu of %s", W->cur_loc, Base::m->name.c_str(), what, (unsigned long long)seq,
                   from >= 0 ? W->mon(from).name.c_str() : "-");
        // one sender, one receiving locality
        auto &last = N->streams[{from, s.second, Base::m->loc}];
        EXPECT(seq >= last, "sender-order", "%s gets #%llu of %s after #%llu", Base::m->name.c_str(), (unsigned long long)seq,
               W->mon(from).name.c_str(), (unsigned long long)last);
        last = seq;
        if (s.first != s.second)
            ++N->remote;
        // everything that was sent within this locality
        if (s.first == Base::m->loc && s.second == Base::m->loc) {
            auto &l = N->local[Base::m->loc];
            EXPECT(seq >= l, "global-order", "locality %d: #%llu is handled by %s after #%llu", Base::m->loc, (unsigned long long)seq,
                   Base::m->name.c_str(), (unsigned long long)l);
            l = seq;
        }
    }
    void on_a(msg_t<0> &m) noexcept {
        got(m.payload.sender, m.payload.seq, "a");
        react();
    }
    void on_b(msg_t<1> &m) noexcept {
        got(m.payload.sender, m.payload.seq, "b");
        react();
    }
    void reply(req_m &m) {
        auto s = next((int)static_cast<sup_t &>(m.payload.reply_to->supervisor).loc->id);
        eng::trace("  %s replies #%llu", Base::m->name.c_str(), (unsigned long long)s);
        if (W->src.chance(70))
            Base::reply_to(m, Base::m->id, s);
        else // an error is a response, too
            Base::reply_with_error(m, Base::make_error(r::make_error_code(r::error_code_t::unknown_service),
                                                       r::make_error(std::to_string(Base::m->id) + "/" + std::to_string(s),
                                                                     r::make_error_code(r::error_code_t::failure_escalation))));
    }
    void on_req(req_m &m) noexcept {
        got(m.payload.request_payload.from, m.payload.request_payload.seq, "request");
        auto k = W->src.draw(3);
        if (W->src.chance(50))
            send(m.payload.origin);
        if (k == 0)
            reply(m);
        else if (k == 1)
            kept.push_back(&m);
        if (W->src.chance(50))
            send(m.payload.origin);
        react();
    }
    void on_res(res_m &m) noexcept {
        ++N->responses;
        if (m.payload.ee) {
            if (auto &next = m.payload.ee->next; next) {
                int from = -1;
                unsigned long long seq = 0;
                EXPECT(sscanf(next->context.c_str(), "%d/%llu", &from, &seq) == 2, "response", "unexpected error %s", m.payload.ee->message().c_str());
                got(from, seq, "error");
                react();
            } else // a timeout is not a message of the responder
                --N->responses;
            return;
        }
        got(m.payload.res.from, m.payload.res.seq, "response");
        react();
    }
    void shutdown_finish() noexcept override {
        kept.clear();
        Base::shutdown_finish();
    }
    uint64_t next(int to_loc) {
        auto s = ++N->seq;
        N->sent[s] = {Base::m->loc, to_loc};
        return s;
    }
    int loc_of(const r::address_ptr_t &a) { return static_cast<sup_t &>(a->supervisor).loc->id; }
    void send(const r::address_ptr_t &a) {
        auto s = next(loc_of(a));
        eng::trace("  %s sends #%llu to loc %d", Base::m->name.c_str(), (unsigned long long)s, loc_of(a));
        if (W->src.chance(50))
            Base::template send<payload_t<0>>(a, s, Base::m->id, s);
        else
            Base::template send<payload_t<1>>(a, s, Base::m->id, s);
    }
    void react() {
        int n = N->budget > 0 ? (int)W->src.weighted({30, 30, 25, 15}) : 0;
        while (n--)
            act();
    }
    void act() override {
        if (N->addrs.empty() || N->budget <= 0)
            return;
        --N->budget;
        auto &a = W->src.pick(N->addrs);
        switch (W->src.weighted({60, 20, 10, 4})) {
        case 0:
            return send(a.a);
        case 1: {
            auto s = next(a.loc);
            eng::trace("  %s requests #%llu", Base::m->name.c_str(), (unsigned long long)s);
            Base::template request<req_p>(a.a, Base::m->id, s).send(us(W->src.chance(30) ? W->src.range(1, 20) * MS : FAR));
            return;
        }
        case 2:
            if (!kept.empty()) {
                auto i = W->src.draw((uint32_t)kept.size());
                auto m = kept[i];
                kept.erase(kept.begin() + i);
                reply(*m);
            }
            return;
        case 3:
            if (Base::m->operational() && !static_cast<sup_t &>(a.a->supervisor).m->stopping())
                listen(a.a);
            return;
        }
    }
};
using anode_t = node_t<act_t>;
using snode_t = node_t<sup_t>;
using spnode_t = node_t<sup_plain_t>;

void run(src_t &src) {
    world_t w(src);
    net_t n(src);
    N = &n;
    int nloc = (int)src.range(1, 3);
    sup_opts_t o;
    std::vector<sup_t *> sups;
    for (int i = 0; i < nloc; ++i) {
        o = {};
        o.loc = w.new_loc();
        o.plain = src.chance(50);
        if (i == 0 || src.chance(40))
            sups.push_back(make_root<snode_t, spnode_t>(o));
        else
            sups.push_back(make_child_sup<snode_t, spnode_t>(*src.pick(sups), o));
        if (src.chance(30))
            sups.push_back(make_child_sup<snode_t, spnode_t>(*sups.back(), o));
    }
    int na = (int)src.range(2, 6);
    for (int i = 0; i < na; ++i)
        make_actor<anode_t>(*src.pick(sups));
    w.settle(0);
    for (auto &m : w.mons)
        EXPECT(m->operational(), "setup", "%s is not operational", m->name.c_str());
    n.budget = (int)src.range(10, eng::thorough() ? 250 : 120);
    int steps = (int)src.range(10, 150);
    bool stops = src.chance(25);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({55, 45, stops ? 3u : 0u});
        if (k == 0 && w.step(w.now + 10 * MS))
            continue;
        std::vector<node_i *> l;
        for (auto *x : n.nodes)
            if (x->mo->operational())
                l.push_back(x);
        if (l.empty())
            break;
        auto *x = src.pick(l);
        if (k == 2) {
            if (!x->mo->sup)
                w.in_loc(x->mo->loc, [&] { x->actor().do_shutdown(); });
        } else
            w.in_loc(x->mo->loc, [&] {
                for (auto c = src.range(1, 4); c > 0; --c)
                    x->act();
            });
    }
    w.settle(w.now + LIMIT);
    eng::count("messages handled", n.handled);
    eng::count("from another locality", n.remote);
    eng::count("responses", n.responses);
    if (n.remote)
        eng::label("across localities");
    if (n.responses)
        eng::label("with responses");
    if (n.foreign)
        eng::label("with subscriptions to addresses of others");
    if (n.handled >= 20)
        eng::nontrivial();
    n.budget = 0;
    for (auto &k : w.keep)
        if (!k->m->stopping() && k->m->parent < 0)
            w.in_loc(k->loc->id, [&] { k->do_shutdown(); });
    w.settle(w.now + LIMIT);
    w.keep.clear();
    w.ctxs.clear();
}
} // namespace

eng::property_t eng::property = {
    "C06",
    "2-9 actors and supervisors in 1-3 localities exchange numbered messages of two types and requests/responses through main "
    "and additional addresses, immediately and from within handlers, with random interleaving; numbers have to arrive in sending "
    "order per sender, and per locality for what was sent inside it; non-trivial: at least 20 messages were handled",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
