// C11: the registry behaves as a name-to-address map with promises
#include "sim.h"
#include "rotor/registry.h"
#include <map>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 100 * SEC;
constexpr uint64_t NEVER = (uint64_t)-1;
using reg_m = r::message::registration_request_t;
using dis_m = r::message::discovery_request_t;
using pro_m = r::message::discovery_promise_t;
using can_m = r::message::discovery_cancel_t;
using can_p = can_m::payload_t;

enum kind_t { K_REG, K_DIS, K_PROMISE };
enum class out_t { none, ok, taken, unknown, cancelled };
const char *OUT[] = {"nothing", "success", "already registered", "unknown service", "cancelled"};
struct client_t;
struct rec_t {
    kind_t kind;
    int client;
    std::string name;
    r::address_t *addr = nullptr; // registered; or expected to be found
    r::address_t *reply_to = nullptr;
    r::request_id_t id = 0;
    uint64_t deadline = NEVER;
    out_t expected = out_t::none;
    bool reached = false, answered = false;
};
struct net_t {
    bool ending = false;
    bool observed = false; // the registry tells in which order it gets the messages; otherwise they are sent one by one
    r::address_ptr_t reg;
    std::vector<client_t *> clients;
    std::vector<mon_t *> mons;
    std::vector<r::address_ptr_t> addrs; // services
    std::vector<std::string> names;
    std::vector<std::unique_ptr<rec_t>> recs;
    std::map<std::string, r::address_t *> map;
    std::vector<rec_t *> promises;
    uint64_t answers = 0, kept = 0, collisions = 0;
    rec_t *find(const r::address_ptr_t &reply_to, r::request_id_t id) {
        for (auto &q : recs)
            if (q->reply_to == reply_to.get() && q->id == id)
                return q.get();
        return nullptr;
    }
    void reached(rec_t &q) {
        EXPECT(!q.reached, "twice", "a request is handed twice to the registry");
        q.reached = true;
        auto it = map.find(q.name);
        if (q.kind == K_REG) {
            if (it != map.end()) {
                q.expected = out_t::taken;
                ++collisions;
                return;
            }
            map[q.name] = q.addr;
            q.expected = out_t::ok;
            for (size_t i = 0; i < promises.size();)
                if (promises[i]->name == q.name) {
                    promises[i]->expected = out_t::ok;
                    promises[i]->addr = q.addr;
                    promises.erase(promises.begin() + i);
                    ++kept;
                } else
                    ++i;
        } else if (it != map.end()) {
            q.expected = out_t::ok;
            q.addr = it->second;
        } else if (q.kind == K_DIS) {
            q.expected = out_t::unknown;
        } else {
            promises.push_back(&q);
            eng::label("discovery is delayed");
        }
    }
    void dereg(const std::string &name) { map.erase(name); }
    void dereg_all(r::address_t *a) {
        int k = 0;
        for (auto it = map.begin(); it != map.end();)
            if (it->second == a) {
                it = map.erase(it);
                ++k;
            } else
                ++it;
        if (k > 1)
            eng::label("several names deregistered at once");
    }
    void cancel(r::address_t *source, r::request_id_t id) {
        for (size_t i = 0; i < promises.size(); ++i)
            if (promises[i]->reply_to == source && promises[i]->id == id) {
                promises[i]->expected = out_t::cancelled;
                promises.erase(promises.begin() + i);
                eng::label("delayed discovery cancelled");
                return;
            }
        eng::label("vain cancel");
    }
    void quiesced();
};
net_t *N;

struct watched_registry_t : r::registry_t {
    using r::registry_t::registry_t;
    void on_reg(reg_m &m) noexcept override {
        seen(m);
        r::registry_t::on_reg(m);
    }
    void on_discovery(dis_m &m) noexcept override {
        seen(m);
        r::registry_t::on_discovery(m);
    }
    void on_promise(pro_m &m) noexcept override {
        seen(m);
        r::registry_t::on_promise(m);
    }
    void on_dereg(r::message::deregistration_notify_t &m) noexcept override {
        if (N)
            N->dereg_all(m.payload.service_addr.get());
        r::registry_t::on_dereg(m);
    }
    void on_dereg_service(r::message::deregistration_service_t &m) noexcept override {
        if (N)
            N->dereg(m.payload.service_name);
        r::registry_t::on_dereg_service(m);
    }
    void on_cancel(can_m &m) noexcept override {
        if (N)
            N->cancel(m.payload.source.get(), m.payload.id);
        r::registry_t::on_cancel(m);
    }
    template <typename M> void seen(M &m) {
        if (!N)
            return;
        auto *q = N->find(m.payload.origin, m.payload.id);
        EXPECT(q, "phantom", "the registry gets a request nobody has made");
        N->reached(*q);
    }
};

struct client_t : act_t {
    int idx;
    std::vector<r::address_ptr_t> own; // the responses come there
    explicit client_t(config_t &c) : act_t(c) {
        idx = (int)N->clients.size();
        N->clients.push_back(this);
        N->mons.push_back(m);
    }
    ~client_t() {
        if (N)
            N->clients[idx] = nullptr;
    }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        act_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &pl) {
            for (auto k = W->src.range(1, 2); k > 0; --k) {
                auto a = create_address();
                own.push_back(a);
                pl.subscribe_actor(&client_t::on_reg, a);
                pl.subscribe_actor(&client_t::on_dis, a);
                pl.subscribe_actor(&client_t::on_fut, a);
                N->addrs.push_back(a);
            }
            N->addrs.push_back(address);
        });
    }
    void shutdown_finish() noexcept override {
        own.clear();
        act_t::shutdown_finish();
    }
    template <typename M> rec_t *answered(M &msg) {
        if (!N)
            return nullptr;
        auto &rq = *msg.payload.req;
        auto *q = N->find(rq.payload.origin, rq.payload.id);
        EXPECT(q && q->client == idx, "misdelivered", "%s gets a response to a request it has not made", m->name.c_str());
        EXPECT(!q->answered, "twice", "%s is answered twice", m->name.c_str());
        q->answered = true;
        auto &ee = msg.payload.ee;
        auto code = ee ? ee->root()->ec : std::error_code{};
        eng::trace("  %s: %s of '%s' (%u): %s", m->name.c_str(), q->kind == K_REG ? "registration" : q->kind == K_DIS ? "discovery" : "delayed discovery",
                   q->name.c_str(), (unsigned)q->id, ee ? ee->message().c_str() : "success");
        EXPECT(rq.payload.request_payload.service_name == q->name, "corrupted", "the name is changed");
        if (code == r::make_error_code(r::error_code_t::request_timeout)) {
            EXPECT(W->now >= q->deadline, "timeout", "%s: premature timeout", m->name.c_str());
            eng::label("timed out");
            return nullptr;
        }
        ++N->answers;
        if (N->ending && q->expected == out_t::none && code == r::make_error_code(r::error_code_t::cancelled))
            return nullptr; // there will be no such name any more
        EXPECT(q->expected != out_t::none, "unexpected", "%s gets an answer about '%s' the registry should not have given: %s", m->name.c_str(),
               q->name.c_str(), ee ? ee->message().c_str() : "success");
        auto got = !ee                                                                        ? out_t::ok
                   : code == r::make_error_code(r::error_code_t::already_registered) ? out_t::taken
                   : code == r::make_error_code(r::error_code_t::unknown_service)    ? out_t::unknown
                   : code == r::make_error_code(r::error_code_t::cancelled)          ? out_t::cancelled
                                                                                     : out_t::none;
        EXPECT(got == q->expected, "answer", "%s: about '%s' the registry answers: %s; expected: %s", m->name.c_str(), q->name.c_str(),
               ee ? ee->message().c_str() : "success", OUT[(int)q->expected]);
        return ee ? nullptr : q;
    }
    void on_reg(r::message::registration_response_t &msg) noexcept { answered(msg); }
    void on_dis(r::message::discovery_response_t &msg) noexcept { found(msg); }
    void on_fut(r::message::discovery_future_t &msg) noexcept { found(msg); }
    template <typename M> void found(M &msg) {
        if (auto *q = answered(msg))
            EXPECT(msg.payload.res.service_addr.get() == q->addr, "address", "%s: another address is found under '%s'", m->name.c_str(),
                   q->name.c_str());
    }
    rec_t &new_rec(kind_t k, const std::string &name, uint64_t timeout, const r::address_ptr_t &reply) {
        N->recs.push_back(std::make_unique<rec_t>());
        auto &q = *N->recs.back();
        q.kind = k;
        q.client = idx;
        q.name = name;
        q.deadline = W->now + timeout;
        q.reply_to = reply.get();
        return q;
    }
    void ask(kind_t k, const std::string &name) {
        auto &src = W->src;
        auto reply = src.pick(own);
        uint64_t t = src.chance(15) ? src.range(1, 20) * MS : FAR;
        auto &q = new_rec(k, name, t, reply);
        const char *what = k == K_REG ? "registers" : k == K_DIS ? "discovers" : "asks to be told about";
        if (k == K_REG) {
            auto a = src.pick(N->addrs);
            q.addr = a.get();
            q.id = request_via<r::payload::registration_request_t>(N->reg, reply, name, a).send(us(t));
        } else if (k == K_DIS)
            q.id = request_via<r::payload::discovery_request_t>(N->reg, reply, name).send(us(t));
        else
            q.id = request_via<r::payload::discovery_promise_t>(N->reg, reply, name).send(us(t));
        eng::trace("  %s %s '%s' (%u)", m->name.c_str(), what, name.c_str(), (unsigned)q.id);
        if (!N->observed)
            N->reached(q);
    }
    void one() {
        auto &src = W->src;
        if (own.empty())
            return;
        auto name = src.pick(N->names);
        switch (src.weighted({30, 20, 20, 10, 8, 12})) {
        case 0:
            return ask(K_REG, name);
        case 1:
            return ask(K_DIS, name);
        case 2:
            return ask(K_PROMISE, name);
        case 3:
            eng::trace("  %s deregisters '%s'", m->name.c_str(), name.c_str());
            send<r::payload::deregistration_service_t>(N->reg, name);
            if (!N->observed)
                N->dereg(name);
            return;
        case 4: {
            auto a = src.pick(N->addrs);
            eng::trace("  %s deregisters an address", m->name.c_str());
            send<r::payload::deregistration_notify_t>(N->reg, a);
            if (!N->observed)
                N->dereg_all(a.get());
            return;
        }
        default: { // cancel
            std::vector<rec_t *> l;
            for (auto &q : N->recs)
                if (q->client == idx && (q->kind == K_PROMISE || src.chance(5)))
                    l.push_back(q.get());
            if (l.empty())
                return;
            auto *q = l[l.size() - 1 - src.draw((uint32_t)std::min<size_t>(l.size(), 5))];
            r::address_ptr_t from;
            for (auto &a : own)
                if (a.get() == q->reply_to)
                    from = a;
            if (src.chance(10)) // not the one who has asked
                from = src.pick(N->addrs);
            if (!from)
                return;
            eng::trace("  %s cancels %u", m->name.c_str(), (unsigned)q->id);
            send<can_p>(N->reg, q->id, from);
            if (!N->observed)
                N->cancel(from.get(), q->id);
        }
        }
    }
};

void net_t::quiesced() {
    for (auto &q : recs) {
        if (mons[q->client]->stopping() || q->answered)
            continue;
        EXPECT(q->reached, "lost", "a request about '%s' has not reached the registry", q->name.c_str());
        EXPECT(q->expected == out_t::none, "unanswered", "%s is not answered about '%s'; expected: %s", mons[q->client]->name.c_str(),
               q->name.c_str(), OUT[(int)q->expected]);
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n;
    N = &n;
    n.observed = src.chance(60);
    for (auto i = src.range(1, 4); i > 0; --i)
        n.names.push_back(std::string("srv-") + char('a' + i - 1));
    if (src.chance(15))
        n.names.push_back("");
    sup_opts_t o;
    o.loc = w.new_loc();
    o.registry = !n.observed;
    o.plain = src.chance(50);
    auto *root = make_root<>(o);
    w.in_loc(0, [&] { w.settle(0); });
    if (n.observed) {
        r::intrusive_ptr_t<watched_registry_t> reg;
        w.in_loc(0, [&] { reg = root->create_actor<watched_registry_t>().timeout(us(FAR)).finish(); });
        n.reg = reg->get_address();
    } else
        n.reg = root->get_registry_address();
    EXPECT(n.reg, "no-registry", "there is no registry");
    std::vector<sup_t *> sups{root};
    for (auto k = src.range(0, 2); k > 0; --k) {
        auto *parent = src.pick(sups);
        sup_opts_t c;
        c.loc = w.locs.size() < 3 && src.chance(60) ? w.new_loc() : parent->loc;
        c.plain = src.chance(50);
        w.in_loc(parent->loc->id, [&] { sups.push_back(make_child_sup<>(*parent, c)); });
        w.settle(0);
    }
    for (auto *s : sups)
        if (!n.observed)
            EXPECT(s->get_registry_address() == n.reg, "inherited", "a nested supervisor does not know the registry");
    for (auto k = src.range(1, 5); k > 0; --k) {
        auto *s = src.pick(sups);
        w.in_loc(s->loc->id, [&] { make_actor<client_t>(*s); });
    }
    w.settle(0);
    int steps = (int)src.range(3, eng::thorough() ? 150 : 80);
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({n.observed ? 45u : 0u, 45, 5, 3, 1});
        if (k == 0) {
            w.step(w.now);
        } else if (k == 1) {
            std::vector<client_t *> l;
            for (auto *c : n.clients)
                if (c && c->m->operational() && !c->m->stopping())
                    l.push_back(c);
            if (l.empty())
                break;
            auto *c = src.pick(l);
            w.in_loc(c->m->loc, [&] { c->one(); });
            if (!n.observed) {
                w.drain();
                n.quiesced();
            }
        } else if (k == 2) {
            w.settle(w.now + src.range(1, 20) * MS);
            n.quiesced();
        } else if (k == 3) {
            w.drain();
            n.quiesced();
        } else {
            std::vector<client_t *> l;
            for (auto *c : n.clients)
                if (c && !c->m->stopping())
                    l.push_back(c);
            if (l.size() < 2)
                continue;
            auto *c = src.pick(l);
            eng::trace("  stop %s", c->m->name.c_str());
            w.in_loc(c->m->loc, [&] { c->do_shutdown(); });
            if (!n.observed)
                w.drain();
        }
    }
    w.drain();
    n.quiesced();
    for (auto *c : n.clients)
        if (c && c->m->operational() && !c->m->stopping()) { // what does it know?
            n.names.push_back("never registered");
            for (auto &name : n.names) {
                w.in_loc(c->m->loc, [&] { c->ask(K_DIS, name); });
                w.drain();
            }
            n.quiesced();
            eng::label("all names asked at the end");
            break;
        }
    eng::count("requests", n.recs.size());
    eng::count("answers", n.answers);
    eng::count("promises kept", n.kept);
    eng::count("name collisions", n.collisions);
    if (n.kept && n.collisions)
        eng::nontrivial();
    n.reg.reset();
    n.addrs.clear();
    n.ending = true;
    w.in_loc(0, [&] { root->do_shutdown(); });
    w.settle(w.now + LIMIT);
    for (auto &m : w.mons)
        EXPECT(m->down_done, "shutdown", "%s does not shut down", m->name.c_str());
    N = nullptr;
    check_nothing_left("leftover");
}
} // namespace

eng::property_t eng::property = {
    "C11",
    "1-5 clients in 1-3 localities register, deregister (a name, an address), discover, ask for and cancel delayed discovery of up to 5 "
    "names (also names of other clients, dead clients, timed out requests); the registry is the built-in one with messages sent one by one, or a "
    "watched one with messages in flight; non-trivial: at least one promise was kept and one registration collided",
    30000, 1000000, 40, 8, 20, 0, run, nullptr};
