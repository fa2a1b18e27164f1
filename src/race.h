// Real threads under ThreadSanitizer (C19-C22): the plan is drawn up front, then the loops run freely. What the actors
// observe is kept by themselves (without any synchronization, the library has to provide it) and judged after all threads
// have been joined. A case that does not come to its end in time gives no verdict (that is the subject of the programs
// under virtual threads).
#pragma once
#include "engine.h"
#include "rotor.hpp"
#include <atomic>
#include <csignal>
#include <memory>
#include <thread>
#include <unistd.h>
#include <vector>

namespace race {
namespace r = rotor;
using eng::src_t;

struct body_t {
    int from = 0, to = 0;
    uint32_t seq = 0;
    int ttl = 0;
    uint32_t salt = 0;
    std::shared_ptr<std::vector<int>> blob; // written by the sender, read by every receiver
};
struct direct_t : body_t {};
struct public_t : body_t {};
struct noise_t : body_t {};
struct go_t {};
struct res_t {
    std::shared_ptr<std::vector<int>> blob;
};
struct req_t : body_t {
    using response_t = res_t;
    req_t(const body_t &b) : body_t{b} {}
};
using req_msg_t = r::request_traits_t<req_t>::request::message_t;
using res_msg_t = r::request_traits_t<req_t>::response::message_t;

struct op_t {
    enum kind_t { SEND, PUB, ASK, TIMER, CANCELLED, SUB, UNSUB } kind;
    int target = 0;
    int ttl = 0;
    uint32_t salt = 0;
    int us = 0;
};
struct world_t;
struct node_t { // one actor
    int id = 0;
    world_t *w = nullptr;
    r::address_ptr_t addr, topic;
    std::vector<int> listens; // owners of the topics the actor is subscribed to from the beginning
    std::vector<char> noisy;  // the noise listened to: 1 from the beginning, 2 for good
    std::vector<op_t> script;
    bool fixed_thread = true;
    // touched by the handlers only, until all threads are joined
    std::thread::id thread, runs;
    int inside = 0;
    std::vector<std::vector<uint32_t>> got;  // by sender
    std::vector<uint32_t> sent;              // by receiver
    std::vector<std::vector<uint32_t>> heard; // by owner of the topic
    uint32_t published = 0, answers = 0, fired = 0, cancelled = 0, noise = 0, asked = 0, timers = 0, errors = 0;
    long sum = 0;
    std::string wrong;
    uint64_t handled = 0;
};
struct world_t {
    std::vector<std::unique_ptr<node_t>> nodes;
    std::vector<r::supervisor_ptr_t> roots, sups;
    std::atomic<long> pending{0}, started{0}, down{0};
    int n_threads = 0;       // outside threads
    std::vector<std::vector<op_t>> outside;
    std::vector<std::vector<uint32_t>> outside_sent;
    bool noise = false;
    bool slow = false;   // some supervisors are slow to initialize, maybe too slow
    bool abrupt = false; // the shutdown is not preceded by rest
    int delay_us[2] = {0, 0};
};
struct here_t { // a handler is being run
    node_t &n;
    // callbacks of cancelled timers run within the handler that cancels
    explicit here_t(node_t &n_, bool callback = false) : n{n_} {
        auto t = std::this_thread::get_id();
        if (n.inside++ && n.wrong.empty() && (!callback || n.runs != t))
            n.wrong = "two handlers of an actor at once";
        n.runs = t;
        if (n.thread == std::thread::id())
            n.thread = t;
        else if (n.fixed_thread && n.thread != t && n.wrong.empty())
            n.wrong = "a handler in another thread";
        ++n.handled;
    }
    ~here_t() { --n.inside; }
};
inline std::shared_ptr<std::vector<int>> blob(uint32_t salt) {
    return std::make_shared<std::vector<int>>(1 + salt % 3, (int)salt);
}
inline long read(const body_t &b) {
    long s = 0;
    if (b.blob)
        for (auto v : *b.blob)
            s += v;
    return s;
}
// a supervisor, the initialization of which takes a while, maybe longer than it is allowed to
template <typename Base> struct sup_t : Base {
    using Base::Base;
    int hold_us = -1;
    r::request_id_t timer = 0;
    bool held = false;
    void init_start() noexcept override {
        Base::init_start();
        if (hold_us >= 0) {
            held = true;
            Base::resources->acquire(0);
            timer = this->start_timer(r::pt::microseconds{hold_us}, *this, &sup_t::on_hold);
        }
    }
    void shutdown_start() noexcept override {
        Base::shutdown_start();
        if (timer)
            this->cancel_timer(timer);
    }
    void on_hold(r::request_id_t, bool) noexcept {
        timer = 0;
        if (held) {
            held = false;
            Base::resources->release(0);
        }
    }
};
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    node_t *n = nullptr;
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&actor_t::on_go);
            p.subscribe_actor(&actor_t::on_direct);
            p.subscribe_actor(&actor_t::on_noise);
            p.subscribe_actor(&actor_t::on_request);
            p.subscribe_actor(&actor_t::on_response);
            for (auto o : n->listens)
                p.subscribe_actor(&actor_t::on_public, n->w->nodes[o]->topic);
            for (size_t o = 0; o < n->noisy.size(); ++o)
                if (n->noisy[o])
                    p.subscribe_actor(&actor_t::on_noise, n->w->nodes[o]->topic);
        });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        here_t h(*n);
        n->w->started.fetch_add(1, std::memory_order_relaxed);
    }
    void shutdown_finish() noexcept override {
        {
            here_t h(*n);
        }
        r::actor_base_t::shutdown_finish();
        n->w->down.fetch_add(1, std::memory_order_relaxed);
    }
    void act(const op_t &op) {
        auto &w = *n->w;
        auto &t = *w.nodes[op.target];
        body_t b;
        b.from = n->id;
        b.to = t.id;
        b.ttl = op.ttl;
        b.salt = op.salt;
        b.blob = blob(op.salt);
        switch (op.kind) {
        case op_t::SEND:
            b.seq = n->sent[t.id]++;
            w.pending.fetch_add(1, std::memory_order_relaxed);
            send<direct_t>(t.addr, direct_t{b});
            break;
        case op_t::PUB:
            b.seq = n->published++;
            send<public_t>(n->topic, public_t{b});
            break;
        case op_t::ASK:
            ++n->asked;
            w.pending.fetch_add(1, std::memory_order_relaxed);
            request<req_t>(t.addr, b).send(r::pt::seconds{300});
            break;
        case op_t::TIMER:
        case op_t::CANCELLED: {
            ++n->timers;
            w.pending.fetch_add(1, std::memory_order_relaxed);
            auto id = start_timer(r::pt::microseconds{op.kind == op_t::TIMER ? op.us : 100000000}, *this, &actor_t::on_timer);
            if (op.kind == op_t::CANCELLED)
                cancel_timer(id);
            break;
        }
        case op_t::SUB:
            if (!n->noisy[t.id]) {
                n->noisy[t.id] = 2; // for good
                subscribe(&actor_t::on_noise, t.topic);
            }
            break;
        case op_t::UNSUB:
            if (n->noisy[t.id] == 1) {
                n->noisy[t.id] = 0;
                unsubscribe(&actor_t::on_noise, t.topic);
            }
            break;
        }
    }
    void on_go(r::message_t<go_t> &) noexcept {
        here_t h(*n);
        for (auto &op : n->script)
            act(op);
        done();
    }
    void done() { n->w->pending.fetch_sub(1, std::memory_order_relaxed); }
    void on_direct(r::message_t<direct_t> &msg) noexcept {
        here_t h(*n);
        auto &b = msg.payload;
        n->got[b.from].push_back(b.seq);
        n->sum += read(b);
        if (b.ttl > 0) {
            op_t op{op_t::SEND};
            op.salt = b.salt * 1664525u + 1013904223u;
            op.target = (int)((op.salt >> 8) % n->w->nodes.size());
            op.ttl = b.ttl - 1;
            act(op);
        }
        done();
    }
    void on_public(r::message_t<public_t> &msg) noexcept {
        here_t h(*n);
        n->heard[msg.payload.from].push_back(msg.payload.seq);
        n->sum += read(msg.payload);
    }
    void on_noise(r::message_t<noise_t> &msg) noexcept {
        here_t h(*n);
        ++n->noise;
        n->sum += read(msg.payload);
    }
    void on_request(req_msg_t &msg) noexcept {
        here_t h(*n);
        n->sum += read(msg.payload.request_payload);
        reply_to(msg, blob(msg.payload.request_payload.salt));
    }
    void on_response(res_msg_t &msg) noexcept {
        here_t h(*n);
        ++n->answers;
        if (msg.payload.ee)
            ++n->errors;
        else
            n->sum += (long)msg.payload.res.blob->size();
        done();
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        here_t h(*n, cancelled);
        ++(cancelled ? n->cancelled : n->fired);
        done();
    }
};

inline node_t &add_actor(world_t &w, r::supervisor_t &s, bool fixed) {
    w.nodes.push_back(std::make_unique<node_t>());
    auto &n = *w.nodes.back();
    n.id = (int)w.nodes.size() - 1;
    n.w = &w;
    n.fixed_thread = fixed;
    auto a = s.create_actor<actor_t>().timeout(r::pt::seconds{300}).finish();
    a->n = &n;
    n.addr = a->get_address();
    n.topic = s.make_address();
    return n;
}
inline op_t draw_op(src_t &src, int n) {
    op_t o;
    o.kind = (op_t::kind_t)src.weighted({6, 2, 2, 2, 1, 1, 2});
    o.target = (int)src.draw((uint32_t)n);
    o.ttl = (int)src.draw(6);
    o.salt = src.draw(1u << 16);
    static const int us[] = {0, 100, 1000, 3000};
    o.us = us[src.draw(4)];
    return o;
}
// everything that is drawn, before any thread runs
inline void draw(world_t &w, src_t &src) {
    auto n = (int)w.nodes.size();
    for (auto &p : w.nodes) {
        auto k = (int)src.draw(12);
        while (k--)
            p->script.push_back(draw_op(src, n));
        for (int i = 0; i < n; ++i)
            if (src.chance(25))
                p->listens.push_back(i);
        for (int i = 0; i < n; ++i)
            p->noisy.push_back(src.chance(25));
    }
    w.n_threads = (int)src.draw(3);
    for (auto &p : w.nodes) {
        p->got.resize(n + w.n_threads);
        p->sent.resize(n);
        p->heard.resize(n);
    }
    for (int t = 0; t < w.n_threads; ++t) {
        w.outside.emplace_back();
        w.outside_sent.emplace_back(n);
        auto k = (int)src.range(1, 12);
        while (k--)
            w.outside.back().push_back(draw_op(src, n));
    }
    w.noise = src.chance(60);
    w.abrupt = w.slow || src.chance(30);
    for (auto &d : w.delay_us)
        d = (int)src.draw(3000);
}
// how long a supervisor may take to initialize, and how long it does
template <typename B> void draw_init(world_t &w, src_t &src, B &b, int &hold) {
    static const int holds[] = {0, 300, 1500};
    bool slow = w.slow && src.chance(50);
    hold = slow ? holds[src.draw(3)] : -1;
    auto t = slow && src.chance(40) ? (int)src.range(1, 2) : 300000;
    std::move(b).init_timeout(r::pt::milliseconds{t}).shutdown_timeout(r::pt::seconds{300});
}
inline void put(world_t &w, node_t &t, body_t b) {
    t.addr->supervisor.enqueue(r::make_message<direct_t>(t.addr, direct_t{std::move(b)}));
}
// the traffic, driven by the thread of the controller; returns when everything has been asked to shut down
inline void control(world_t &w, std::function<void(r::supervisor_t &)> stop) {
    auto wait = [](auto &&cond) {
        while (!cond())
            usleep(100);
    };
    auto n = (long)w.nodes.size();
    if (w.abrupt)
        usleep(w.delay_us[0]);
    else
        wait([&] { return w.started.load(std::memory_order_relaxed) == n; });
    w.pending.fetch_add(n + 1, std::memory_order_relaxed);
    for (auto &p : w.nodes)
        p->addr->supervisor.enqueue(r::make_message<go_t>(p->addr));
    std::atomic_bool end{false};
    std::vector<std::thread> th;
    for (int t = 0; t < w.n_threads; ++t) {
        w.pending.fetch_add((long)w.outside[t].size(), std::memory_order_relaxed);
        th.emplace_back([&, t] {
            for (auto &op : w.outside[t]) {
                body_t b;
                b.from = (int)w.nodes.size() + t;
                b.to = op.target;
                b.seq = w.outside_sent[t][op.target]++;
                b.ttl = op.ttl;
                b.salt = op.salt;
                b.blob = blob(op.salt);
                put(w, *w.nodes[op.target], b);
                if (op.us)
                    usleep(op.us / 4);
            }
            for (int i = 0; w.noise && i < 80 && !end.load(std::memory_order_relaxed); ++i) {
                for (auto &op : w.outside[t]) {
                    auto &to = *w.nodes[op.target];
                    body_t b;
                    b.blob = blob(op.salt);
                    to.addr->supervisor.enqueue(r::make_message<noise_t>(to.addr, noise_t{b}));
                    to.topic->supervisor.enqueue(r::make_message<noise_t>(to.topic, noise_t{b}));
                }
                usleep(300);
            }
        });
    }
    w.pending.fetch_sub(1, std::memory_order_relaxed);
    if (w.abrupt)
        usleep(w.delay_us[1]);
    else
        wait([&] { return w.pending.load(std::memory_order_relaxed) <= 0; });
    for (auto &s : w.roots)
        stop(*s);
    wait([&] { return w.down.load(std::memory_order_relaxed) >= n; });
    end = true;
    for (auto &t : th)
        t.join();
}
inline void judge(world_t &w) {
    uint64_t handled = 0;
    auto n = (int)w.nodes.size();
    for (auto &p : w.nodes) {
        EXPECT(p->wrong.empty(), "execution", "actor %d: %s", p->id, p->wrong.c_str());
        handled += p->handled;
        for (int f = 0; f < n + w.n_threads; ++f) {
            auto sent = f < n ? w.nodes[f]->sent[p->id] : w.outside_sent[f - n][p->id];
            auto &g = p->got[f];
            for (uint32_t i = 0; i < g.size(); ++i)
                EXPECT(w.abrupt ? !i || g[i] > g[i - 1] : g[i] == i, "order", "message %u from %d to %d is the %u-th to arrive", g[i], f, p->id, i);
            EXPECT(w.abrupt ? g.size() <= sent : g.size() == sent, "lost", "%zu of %u messages from %d to %d have arrived", g.size(), sent, f, p->id);
        }
        for (int f = 0; f < n; ++f) {
            auto &g = p->heard[f];
            for (uint32_t i = 0; i < g.size(); ++i)
                EXPECT(g[i] < w.nodes[f]->published && (!i || g[i] > g[i - 1]), "public order",
                       "published message %u of %d arrived at %d after %u", g[i], f, p->id, i ? g[i - 1] : 0);
        }
        EXPECT(w.abrupt ? p->asked >= p->answers : p->asked == p->answers && !p->errors, "answers", "actor %d: %u requests, %u answers, %u errors", p->id, p->asked,
               p->answers, p->errors);
        EXPECT(p->timers == p->fired + p->cancelled, "timers", "actor %d: %u timers, %u callbacks", p->id, p->timers,
               p->fired + p->cancelled);
    }
    eng::count("handlers", handled);
    if (w.slow)
        eng::label("slow initialization");
    if (w.abrupt)
        eng::label("abrupt shutdown");
    if (handled >= 12)
        eng::nontrivial();
}
inline void on_alarm(int) { // no verdict
    if (getenv("RACE_PAUSE"))
        pause();
    _exit(eng::NO_VERDICT);
}
inline void begin() {
    signal(SIGALRM, on_alarm);
    alarm(20);
}
inline void end() { alarm(0); }
} // namespace race
