// Harness for the real backends (C19-C22): supervisors and actors in their real event loops, under virtual threads and
// virtual time (vt.h). Actors send, publish, ask, start and cancel timers and are busy, as drawn while they run; every
// expectation is checked when something happens, and again whenever nothing can run ("idle").
#pragma once
#include "engine.h"
#include "vt.h"
#include "rotor.hpp"
#include <atomic>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <vector>

namespace rt {
namespace r = rotor;
using eng::src_t;
using vt::MS;
using vt::ns_t;
using vt::SEC;
using vt::US;

struct world_t;
struct actor_t;
extern world_t *W;

// ---- messages ----------------------------------------------------------------------------------
struct counted_t {
    static int64_t live;
    counted_t() { ++live; }
    counted_t(const counted_t &) { ++live; }
    counted_t &operator=(const counted_t &) = default;
    ~counted_t() { --live; }
};
struct body_t : counted_t {
    int from = 0;
    int to = 0; // owner of the address
    uint32_t seq = 0;
};
struct direct_t : body_t {};   // to one actor
struct blocking_t : body_t {}; // to one actor, handler tagged io
struct public_t : body_t {};   // to the subscribers of an address
struct go_t : counted_t {};
struct leave_t : counted_t {}; // drop the foreign subscriptions
struct stop_t : counted_t {};  // ask the own supervisor to shut down
struct res_t : counted_t {
    int id = 0;
    res_t() = default;
    explicit res_t(int i) : id{i} {}
};
struct req_t : body_t {
    using response_t = res_t;
    int id = 0;
    req_t(int i, const body_t &b) : body_t{b}, id{i} {}
};
namespace message {
using direct_t = r::message_t<rt::direct_t>;
using blocking_t = r::message_t<rt::blocking_t>;
using public_t = r::message_t<rt::public_t>;
using go_t = r::message_t<rt::go_t>;
using leave_t = r::message_t<rt::leave_t>;
using stop_t = r::message_t<rt::stop_t>;
using req_t = r::request_traits_t<rt::req_t>::request::message_t;
using res_t = r::request_traits_t<rt::req_t>::response::message_t;
} // namespace message

// ---- records -----------------------------------------------------------------------------------
struct loc_t { // locality: what runs one handler at a time
    int id = 0;
    int thread = -1; // fixed thread, -1: any (asio)
    int depth = 0;   // message handlers being run
    int running = -1; // the thread that runs them
    ns_t refreshed = 0; // when the loop was told to update its time
    ns_t free = 0;    // when the last handler was left
    std::function<bool()> here; // additional test that the execution takes place where it should
};
struct mon_t {
    int id = 0;
    std::string name;
    bool is_sup = false;
    loc_t *loc = nullptr;
    mon_t *parent = nullptr; // supervisor
    int root = 0;
    bool started = false, down_begun = false, down = false, destroyed = false;
    uint64_t undelivered = 0;
    actor_t *actor = nullptr; // while alive
    r::supervisor_t *sup = nullptr;
    r::address_ptr_t addr;
    std::atomic_bool *flag = nullptr; // shutdown flag of a root
    r::supervisor_ptr_t keep;         // of a supervisor, until everything is released
    r::supervisor_t &sup_of() { return addr->supervisor; }
};
struct timer_t {
    mon_t *owner;
    r::request_id_t id;
    ns_t base, upper, interval; // the loop's idea of the moment of the start is within [base, upper]
    bool active = true, cancelling = false;
    uint64_t no;
};
struct ask_t {
    int id;
    mon_t *from, *to;
    ns_t base, upper = 0, timeout;
    int answers = 0;   // seen by the asking actor
    int replied = 0;   // 1: ok, 2: error
    bool late_reply = false;
};

struct world_t {
    src_t &src;
    std::vector<std::unique_ptr<loc_t>> locs;
    std::vector<std::unique_ptr<mon_t>> mons;
    std::vector<mon_t *> actors, sups, roots;
    std::map<int, std::vector<int>> subs; // owner of the address -> subscribers (actor ids)
    struct chan_t {
        uint32_t sent = 0, rcvd = 0;
    };
    std::map<std::tuple<int, int, int, int>, chan_t> chans; // kind, sender, address, receiver
    std::map<std::pair<int, r::request_id_t>, timer_t> timers;
    std::vector<std::unique_ptr<ask_t>> asks;
    int ops_left = 0, activity = 50, max_ops = 2;
    bool traffic = false, stopping = false, abrupt = false;
    bool ordered_timers = false; // deadlines are strictly respected within a locality
    bool prompt_timers = false;  // the loop fires them as soon as it has no message to process
    ns_t late_slack = 3 * MS;    // allowed delay of a timer when nothing runs
    ns_t early = 2 * US;         // rounding of the clocks
    int ext_left = 0, outstanding = 0 /* backend specific */;
    uint64_t n_sent = 0, n_rcvd = 0, n_timers = 0, n_fired = 0, n_cancelled = 0, n_asks = 0, n_timeouts = 0, n_extra = 0;
    // backend
    std::function<ns_t(mon_t &, bool io)> time_base; // the time the loop uses as "now" when a timer is started is not earlier
    std::function<void(actor_t &)> extra;            // backend specific operation
    std::function<void(mon_t &)> stop;               // supervisor's shutdown(), called by any thread
    std::function<ns_t()> shortened = [] { return 0; }; // the toolkit may shorten intervals by that
    std::function<void()> idle_more;
    std::function<void()> all_down;                  // everything is shut down

    explicit world_t(src_t &s) : src{s} { W = this; counted_t::live = 0; }
    ~world_t() { W = nullptr; }
    loc_t *new_loc() {
        locs.push_back(std::make_unique<loc_t>());
        locs.back()->id = (int)locs.size() - 1;
        return locs.back().get();
    }
    mon_t &new_mon(bool sup, loc_t *l, mon_t *parent) {
        mons.push_back(std::make_unique<mon_t>());
        auto &m = *mons.back();
        m.id = (int)mons.size() - 1;
        m.is_sup = sup;
        m.loc = l;
        m.parent = parent;
        m.root = parent ? parent->root : m.id;
        m.name = (sup ? "S" : "A") + std::to_string(m.id) + "@" + std::to_string(l->id);
        (sup ? sups : actors).push_back(&m);
        if (sup && !parent)
            roots.push_back(&m);
        return m;
    }
    std::string who(int id) const {
        return id < 0 ? "X" + std::to_string(-id) : mons[id]->name;
    }
    // the message of kind k, about to be sent by `from` to the address of `to`; registers the expectations
    body_t stamp(int kind, int from, mon_t &to) {
        body_t b;
        b.from = from;
        b.to = to.id;
        ++n_sent;
        if (kind == 1) {
            uint32_t top = 0;
            for (auto s : subs[to.id]) {
                auto &c = chans[{1, from, to.id, s}];
                top = ++c.sent;
                ++mons[s]->undelivered;
            }
            b.seq = top;
        } else {
            auto &c = chans[{0, from, to.id, to.id}];
            b.seq = ++c.sent;
            ++to.undelivered;
        }
        eng::trace("%lld %s sends #%u to %s%s", (long long)(vt::now() / US), who(from).c_str(), b.seq, to.name.c_str(),
                   kind == 1 ? " (public)" : "");
        return b;
    }
    void received(int kind, mon_t &me, const body_t &b) {
        auto it = chans.find({kind, b.from, b.to, me.id});
        EXPECT(it != chans.end(), "stranger", "%s got a message of %s to %s it should not get", me.name.c_str(), who(b.from).c_str(),
               who(b.to).c_str());
        auto &c = it->second;
        eng::trace("%lld %s got #%u of %s%s", (long long)(vt::now() / US), me.name.c_str(), b.seq, who(b.from).c_str(),
                   kind == 1 ? " (public)" : "");
        EXPECT(b.seq > c.rcvd, "twice", "%s got message #%u of %s after #%u: duplicated or reordered", me.name.c_str(), b.seq,
               who(b.from).c_str(), c.rcvd);
        EXPECT(b.seq == c.rcvd + 1, "lost", "%s got message #%u of %s right after #%u: lost or reordered", me.name.c_str(), b.seq,
               who(b.from).c_str(), c.rcvd);
        c.rcvd = b.seq;
        ++n_rcvd;
        --me.undelivered;
    }
    void check_order(const timer_t &fired) {
        for (auto &p : timers) {
            auto &t = p.second;
            EXPECT(!t.active || t.owner->loc != fired.owner->loc || t.upper + t.interval >= fired.base + fired.interval, "timer order",
                   "the timer %llu of %s (deadline %lld) fires before the timer %llu of %s (deadline %lld)", (unsigned long long)fired.no,
                   fired.owner->name.c_str(), (long long)((fired.base + fired.interval) / US), (unsigned long long)t.no, t.owner->name.c_str(),
                   (long long)((t.upper + t.interval) / US));
        }
    }
    bool quiet() const {
        if (ext_left || outstanding)
            return false;
        for (auto &t : timers)
            if (t.second.active && !t.second.owner->down)
                return false;
        for (auto &a : asks)
            if (!a->answers && !a->from->down_begun)
                return false;
        return true;
    }
    void on_idle() {
        auto now = vt::now();
        for (auto a : actors)
            EXPECT(!a->undelivered || a->down_begun || !a->started, "undelivered",
                   "nothing runs, but %llu message(s) to %s are not delivered", (unsigned long long)a->undelivered, a->name.c_str());
        for (auto &p : timers) {
            auto &t = p.second;
            EXPECT(!t.active || t.owner->down_begun || now <= t.upper + t.interval + late_slack, "late timer",
                   "nothing runs, but the timer %llu of %s (%lld us, started at %lld) has not fired at %lld", (unsigned long long)t.id,
                   t.owner->name.c_str(), (long long)(t.interval / US), (long long)(t.base / US), (long long)(now / US));
        }
        for (auto &a : asks)
            EXPECT(a->answers || a->from->down_begun || now <= a->upper + a->timeout + late_slack, "unanswered",
                   "nothing runs, but the request %d of %s to %s (timeout %lld us, sent at %lld) is not answered at %lld", a->id,
                   a->from->name.c_str(), a->to->name.c_str(), (long long)(a->timeout / US), (long long)(a->base / US),
                   (long long)(now / US));
        EXPECT(!outstanding || abrupt, "not called", "nothing runs, but %d forwarded call(s) have not taken place", outstanding);
        if (idle_more)
            idle_more();
    }
    std::string describe() {
        std::string s;
        for (auto &m : mons)
            if (!m->down)
                s += m->name + " is not shut down; ";
        return s;
    }
};

// ---- guards ------------------------------------------------------------------------------------
struct here_t {
    mon_t &m;
    bool msg;
    here_t(mon_t &m_, const char *what, bool message) : m{m_}, msg{message} {
        auto &l = *m.loc;
        auto me = vt::self();
        EXPECT(l.thread < 0 || l.thread == me, "thread", "%s of %s runs in thread %d instead of %d", what, m.name.c_str(), me, l.thread);
        EXPECT(!l.here || l.here(), "strand", "%s of %s runs outside of its strand", what, m.name.c_str());
        EXPECT(!l.depth || l.running == me, "concurrent", "%s of %s runs while another handler of its locality does", what,
               m.name.c_str());
        EXPECT(!msg || !l.depth, "nested", "%s of %s is called within another handler of its locality", what, m.name.c_str());
        ++l.depth;
        l.running = me;
        EXPECT(!m.destroyed, "dead", "%s of the destroyed %s", what, m.name.c_str());
    }
    ~here_t() {
        --m.loc->depth;
        m.loc->free = vt::now();
    }
};

// ---- actors ------------------------------------------------------------------------------------
struct actor_config_t : r::actor_config_t {
    mon_t *mon = nullptr;
    using r::actor_config_t::actor_config_t;
};
template <typename A> struct actor_builder_t : r::actor_config_builder_t<A> {
    using parent_t = r::actor_config_builder_t<A>;
    using parent_t::parent_t;
    using builder_t = typename A::template config_builder_t<A>;
    builder_t &&mon(mon_t *m) && {
        parent_t::config.mon = m;
        return std::move(*static_cast<builder_t *>(this));
    }
};
struct actor_t : r::actor_base_t {
    using config_t = actor_config_t;
    template <typename A> using config_builder_t = actor_builder_t<A>;
    mon_t &m;
    bool io = false; // a blocking handler is being run
    bool foreign_io = false;
    std::vector<r::address_ptr_t> foreign;
    std::deque<r::intrusive_ptr_t<message::req_t>> held;

    explicit actor_t(actor_config_t &c) : r::actor_base_t{c}, m{*c.mon} { m.actor = this; }
    ~actor_t() {
        m.destroyed = true;
        m.actor = nullptr;
    }
    void configure(r::plugin::plugin_base_t &plugin) noexcept override {
        r::actor_base_t::configure(plugin);
        plugin.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            p.subscribe_actor(&actor_t::on_direct);
            p.subscribe_actor(&actor_t::on_blocking)->tag_io();
            p.subscribe_actor(&actor_t::on_public);
            p.subscribe_actor(&actor_t::on_go);
            p.subscribe_actor(&actor_t::on_leave);
            p.subscribe_actor(&actor_t::on_stop);
            p.subscribe_actor(&actor_t::on_req);
            p.subscribe_actor(&actor_t::on_res);
            foreign_io = W->src.chance(40);
            for (auto &a : foreign) {
                auto info = p.subscribe_actor(&actor_t::on_public, a);
                if (foreign_io)
                    info->tag_io();
            }
        });
    }
    void on_start() noexcept override {
        here_t h(m, "on_start", false);
        EXPECT(!m.started, "started", "%s is started twice", m.name.c_str());
        r::actor_base_t::on_start();
        m.started = true;
        eng::trace("%lld %s started", (long long)(vt::now() / US), m.name.c_str());
    }
    void shutdown_start() noexcept override {
        here_t h(m, "shutdown_start", false);
        m.down_begun = true;
        eng::trace("%lld %s shuts down", (long long)(vt::now() / US), m.name.c_str());
        held.clear();
        r::actor_base_t::shutdown_start();
    }
    void shutdown_finish() noexcept override {
        here_t h(m, "shutdown_finish", false);
        r::actor_base_t::shutdown_finish();
        EXPECT(!m.down, "finished", "%s is shut down twice", m.name.c_str());
        for (auto &p : W->timers)
            EXPECT(!p.second.active || p.second.owner != &m, "timer left", "%s is shut down, but its timer %llu has neither fired nor been cancelled",
                   m.name.c_str(), (unsigned long long)p.second.id);
        m.down = true;
        eng::trace("%lld %s is shut down", (long long)(vt::now() / US), m.name.c_str());
    }
    r::supervisor_t &get_supervisor_base() { return *supervisor; }

    // --- handlers
    void on_direct(message::direct_t &msg) noexcept {
        here_t h(m, "a handler", true);
        W->received(0, m, msg.payload);
        act();
    }
    void on_blocking(message::blocking_t &msg) noexcept {
        here_t h(m, "a handler", true);
        W->received(0, m, msg.payload);
        io = true;
        act();
        io = false;
    }
    void on_public(message::public_t &msg) noexcept {
        here_t h(m, "a handler", true);
        W->received(1, m, msg.payload);
        io = foreign_io && msg.address != address;
        act();
        io = false;
    }
    void on_go(message::go_t &) noexcept {
        here_t h(m, "a handler", true);
        --m.undelivered;
        act(true);
    }
    void on_leave(message::leave_t &) noexcept {
        here_t h(m, "a handler", true);
        --m.undelivered;
        for (auto &a : foreign)
            unsubscribe(&actor_t::on_public, a);
        foreign.clear();
    }
    void on_stop(message::stop_t &) noexcept {
        here_t h(m, "a handler", true);
        supervisor->do_shutdown();
    }
    void on_req(message::req_t &req) noexcept {
        here_t h(m, "a handler", true);
        auto &p = req.payload.request_payload;
        W->received(0, m, p);
        auto how = W->src.weighted({5, 2, 3, 3});
        if (how == 0)
            answer(req, true);
        else if (how == 1)
            answer(req, false);
        else if (how == 2)
            held.emplace_back(&req);
        act();
    }
    void answer(message::req_t &req, bool ok) {
        auto &a = *W->asks[req.payload.request_payload.id];
        a.replied = ok ? 1 : 2;
        a.late_reply = a.answers;
        if (ok)
            reply_to(req, a.id);
        else
            reply_with_error(req, make_error(r::make_error_code(r::error_code_t::actor_misconfigured)));
    }
    void on_res(message::res_t &res) noexcept {
        here_t h(m, "a response handler", true);
        auto &rq = res.payload.req->payload.request_payload;
        auto &a = *W->asks[rq.id];
        EXPECT(a.from == &m, "stranger", "%s got the response to the request %d of %s", m.name.c_str(), a.id, a.from->name.c_str());
        EXPECT(!a.answers++, "answered twice", "request %d of %s is answered twice", a.id, m.name.c_str());
        auto &ee = res.payload.ee;
        if (!ee) {
            EXPECT(a.replied == 1, "wrong answer", "request %d of %s is answered, %s", a.id, m.name.c_str(),
                   a.replied ? "although it has been replied with an error" : "although nobody has replied");
            EXPECT(res.payload.res.id == a.id, "wrong answer", "request %d of %s got the answer to %d", a.id, m.name.c_str(), res.payload.res.id);
        } else if (ee->ec == r::make_error_code(r::error_code_t::request_timeout)) {
            EXPECT(vt::now() + W->early + W->shortened() >= a.base + a.timeout, "early timeout", "request %d of %s (timeout %lld us, sent at %lld) timed out at %lld",
                   a.id, m.name.c_str(), (long long)(a.timeout / US), (long long)(a.base / US), (long long)(vt::now() / US));
            ++W->n_timeouts;
        } else if (ee->ec == r::make_error_code(r::error_code_t::cancelled)) {
            EXPECT(m.down_begun, "cancelled", "request %d of %s is cancelled", a.id, m.name.c_str());
        } else {
            EXPECT(a.replied == 2, "wrong answer", "request %d of %s: %s", a.id, m.name.c_str(), ee->message().c_str());
        }
        act();
    }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        here_t h(m, "a timer callback", false);
        auto it = W->timers.find({m.id, id});
        EXPECT(it != W->timers.end(), "unknown timer", "%s: callback of an unknown timer %llu", m.name.c_str(), (unsigned long long)id);
        auto &t = it->second;
        auto now = vt::now();
        eng::trace("%lld %s: timer %llu %s", (long long)(now / US), m.name.c_str(), (unsigned long long)t.no, cancelled ? "cancelled" : "fired");
        EXPECT(t.active, "timer twice", "%s: second callback (%s) of the timer %llu", m.name.c_str(), cancelled ? "cancelled" : "fired",
               (unsigned long long)t.no);
        t.active = false;
        if (cancelled) {
            EXPECT(t.cancelling || m.down_begun, "cancelled", "%s: the timer %llu is cancelled by nobody", m.name.c_str(), (unsigned long long)t.no);
            ++W->n_cancelled;
            if (!m.down_begun)
                act();
            return;
        }
        EXPECT(!t.cancelling, "cancelled fired", "%s: the timer %llu fires on its cancellation", m.name.c_str(), (unsigned long long)t.no);
        EXPECT(now + W->early + W->shortened() >= t.base + t.interval, "early timer", "%s: the timer %llu (%lld us, started at %lld) fired at %lld", m.name.c_str(),
               (unsigned long long)t.no, (long long)(t.interval / US), (long long)(t.base / US), (long long)(now / US));
        ++W->n_fired;
        if (W->prompt_timers && m.loc->depth == 1) { // the loop had nothing else to do
            auto due = std::max(t.upper + t.interval, m.loc->free);
            auto at = vt::point_time(m.loc->thread, 150);
            EXPECT(at <= due, "late timer", "%s: the timer %llu (%lld us, started at %lld) fired at %lld, though its loop was busy with nothing",
                   m.name.c_str(), (unsigned long long)t.no, (long long)(t.interval / US), (long long)(t.upper / US), (long long)(now / US));
        }
        if (W->ordered_timers)
            W->check_order(t);
        act();
    }

    // --- operations
    bool can_act() const { return W->traffic && m.started && !m.down_begun && W->ops_left > 0; }
    void act(bool sure = false) {
        auto &s = W->src;
        for (int k = 0; k < W->max_ops && can_act(); ++k) {
            if (!(sure && k == 0) && !s.chance(W->activity))
                continue;
            --W->ops_left;
            op();
        }
    }
    mon_t &peer() { return *W->src.pick(W->actors); }
    void op();
};
ns_t draw_interval(src_t &s);
r::pt::time_duration draw_poll(src_t &s);
// ---- supervisors -------------------------------------------------------------------------------
template <typename Base> struct sup_t;
template <typename Config> struct sup_config_t : Config {
    mon_t *mon = nullptr;
    using Config::Config;
};
template <typename Sup> struct sup_builder_t : Sup::base_t::template config_builder_t<Sup> {
    using parent_t = typename Sup::base_t::template config_builder_t<Sup>;
    using parent_t::parent_t;
    using builder_t = typename Sup::template config_builder_t<Sup>;
    builder_t &&mon(mon_t *m) && {
        parent_t::config.mon = m;
        return std::move(*static_cast<builder_t *>(this));
    }
};
template <typename Base> struct sup_t : Base {
    using base_t = Base;
    using config_t = sup_config_t<typename Base::config_t>;
    template <typename S> using config_builder_t = sup_builder_t<S>;
    mon_t &m;
    explicit sup_t(config_t &c) : Base{c}, m{*c.mon} { m.sup = this; }
    ~sup_t() {
        m.destroyed = true;
        m.sup = nullptr;
    }
    void on_start() noexcept override {
        here_t h(m, "on_start", false);
        EXPECT(!m.started, "started", "%s is started twice", m.name.c_str());
        Base::on_start();
        m.started = true;
        eng::trace("%lld %s started", (long long)(vt::now() / US), m.name.c_str());
    }
    void shutdown_start() noexcept override {
        here_t h(m, "shutdown_start", false);
        m.down_begun = true;
        eng::trace("%lld %s shuts down", (long long)(vt::now() / US), m.name.c_str());
        Base::shutdown_start();
    }
    void shutdown_finish() noexcept override {
        {
            here_t h(m, "shutdown_finish", false);
            EXPECT(!m.down, "finished", "%s is shut down twice", m.name.c_str());
            for (auto &c : W->mons)
                EXPECT(c->parent != &m || c->down, "children", "%s is shut down before its %s", m.name.c_str(), c->name.c_str());
            eng::trace("%lld %s is shut down", (long long)(vt::now() / US), m.name.c_str());
        }
        Base::shutdown_finish();
        m.down = true;
    }
    void enqueue(r::message_ptr_t msg) noexcept override {
        vt::point();
        Base::enqueue(std::move(msg));
        vt::point();
    }
};
// ---- the scenario ------------------------------------------------------------------------------
void draw_traffic(world_t &w);                    // parameters of the traffic
vt::opts_t draw_schedule(world_t &w);
// the thread that starts everything, lets the traffic run, and shuts the roots down
void controller(world_t &w, std::function<void()> start_roots);
void outside_thread(world_t &w, int no, int n);
void finish(world_t &w);          // after the loops have ended
void finish_released(world_t &w); // after everything is released; statistics
template <typename Sup> mon_t &add_actor(world_t &w, Sup &sup) {
    auto &m = w.new_mon(false, sup.m.loc, &sup.m);
    auto a = sup.template create_actor<actor_t>().mon(&m).timeout(r::pt::seconds{60}).finish();
    EXPECT(a, "create", "%s is not created", m.name.c_str());
    m.addr = a->get_address();
    w.subs[m.id].push_back(m.id);
    return m;
}
void draw_foreign(world_t &w); // foreign subscriptions, after all actors are created
} // namespace rt
