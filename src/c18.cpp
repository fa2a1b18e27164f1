// C18: only well-configured actors are created; misconfiguration is reported; the configuration takes effect
#include "sim.h"
#include <atomic>
#include <csignal>
#include <map>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

namespace {
constexpr uint64_t LIMIT = 500 * SEC;

// a user's actor with a required setting of its own
struct named_config_t : r::actor_config_t {
    using r::actor_config_t::actor_config_t;
    std::string nm;
    int extra = 7;
};
template <typename A> struct named_builder_t : r::actor_config_builder_t<A> {
    using builder_t = typename A::template config_builder_t<A>;
    using parent_t = r::actor_config_builder_t<A>;
    using parent_t::parent_t;
    constexpr static const std::uint32_t NAME = 1 << 2;
    constexpr static const std::uint32_t requirements_mask = parent_t::requirements_mask | NAME;
    builder_t &&nm(const std::string &v) && {
        parent_t::config.nm = v;
        parent_t::mask = (parent_t::mask & ~NAME);
        return std::move(*static_cast<builder_t *>(this));
    }
    builder_t &&extra(int v) && {
        parent_t::config.extra = v;
        return std::move(*static_cast<builder_t *>(this));
    }
    bool validate() noexcept override { return parent_t::validate() && parent_t::config.extra >= 0; }
};

struct model_t { // what has been asked for
    std::optional<uint64_t> init, shut;
    bool escalate = false, autoshutdown = false;
    // supervisors
    bool registry = false, sync = false;
    r::supervisor_policy_t policy = r::supervisor_policy_t::shutdown_self;
    r::address_ptr_t reg_addr;
    const std::atomic_bool *flag = nullptr;
    uint64_t freq = 0;
    size_t queue = 64;
    uint64_t poll = 1 * MS;
    // named actors
    std::optional<std::string> nm;
    int extra = 7;
    bool valid(int kind) const {
        if (!init || !shut)
            return false;
        if (kind == 0)
            return !(registry && reg_addr);
        return kind == 1 || (nm && extra >= 0);
    }
};
struct rec_t {
    int kind; // 0 supervisor, 1 actor, 2 named actor
    model_t c;
    mon_t *m = nullptr;
    int parent = -1; // index of the record
    r::address_ptr_t registry;
    bool holds = false; // does not finish its initialization
    uint64_t born = 0;
    uint64_t hung_at = 0; // does not finish its shutdown
    int flag_no = -1;
    // predicted
    std::optional<uint64_t> down_at;
    std::optional<uint64_t> down_by; // by the flag
};

// exposes what the backends use
template <typename B> struct open_t : B {
    using B::B;
    bool hangs = false;
    void shutdown_start() noexcept override {
        B::shutdown_start();
        if (!hangs && B::resources->has_any())
            B::resources->release();
    }
    r::plugin::resources_plugin_t *rs() { return B::resources; }
    const pt::time_duration &cfg_init() { return B::init_timeout; }
    const pt::time_duration &cfg_shut() { return B::shutdown_timeout; }
};
struct osup_t : open_t<sup_t> {
    using open_t<sup_t>::open_t;
    size_t q() { return inbound_queue_size; }
    pt::time_duration p() { return poll_duration; }
};
struct oplain_t : open_t<sup_plain_t> {
    using open_t<sup_plain_t>::open_t;
    size_t q() { return inbound_queue_size; }
    pt::time_duration p() { return poll_duration; }
};
struct oact_t : open_t<act_t> {
    using open_t<act_t>::open_t;
};
struct named_t : open_t<act_t> {
    using config_t = named_config_t;
    template <typename A> using config_builder_t = named_builder_t<A>;
    std::string nm;
    int extra;
    explicit named_t(config_t &c) : open_t<act_t>(c), nm{c.nm}, extra{c.extra} {}
};

struct net_t {
    src_t &src;
    std::vector<std::unique_ptr<rec_t>> recs;
    std::atomic_bool flags[6];
    std::map<int, uint64_t> flag_set;
    r::intrusive_ptr_t<ctx_t> ctx;
    uint64_t refused = 0, created = 0, second_roots = 0, checked_down = 0, hung = 0;
    explicit net_t(src_t &s) : src{s} {
        for (auto &f : flags)
            f = false;
    }
    rec_t *of(mon_t *m) {
        for (auto &x : recs)
            if (x->m == m)
                return x.get();
        return nullptr;
    }
    // the node goes down now with (without) a failure: who follows?
    void down(rec_t &x, bool failure) {
        if (x.down_at)
            return;
        x.down_at = W->now;
        if (x.parent >= 0 && ((x.c.escalate && failure) || x.c.autoshutdown))
            down(*recs[x.parent], failure);
        for (auto &y : recs)
            if (y->parent >= 0 && recs[y->parent].get() == &x)
                down(*y, false);
    }
};
net_t *N;

// a random sequence of the settings, in a random order; the last one wins
template <typename B> void common(B &b, model_t &c, bool complete) {
    auto &src = W->src;
    auto span = [&] { return (uint64_t)src.range(1, 60) * MS; };
    auto pick = src.draw(5);
    if (complete && (!c.init || !c.shut) && src.chance(60))
        pick = src.draw(3);
    switch (pick) {
    case 0: {
        auto v = span();
        (void)std::move(b).timeout(us(v));
        c.init = c.shut = v;
        break;
    }
    case 1: {
        auto v = span();
        (void)std::move(b).init_timeout(us(v));
        c.init = v;
        break;
    }
    case 2: {
        auto v = span();
        (void)std::move(b).shutdown_timeout(us(v));
        c.shut = v;
        break;
    }
    case 3: {
        bool v = src.chance(60);
        if (v && src.chance(50))
            (void)std::move(b).escalate_failure();
        else
            (void)std::move(b).escalate_failure(v);
        c.escalate = v;
        break;
    }
    case 4: {
        bool v = src.chance(40);
        if (v && src.chance(50))
            (void)std::move(b).autoshutdown_supervisor();
        else
            (void)std::move(b).autoshutdown_supervisor(v);
        c.autoshutdown = v;
        break;
    }
    }
}
template <typename B> void special(B &b, model_t &c, int &flag_no) {
    auto &src = W->src;
    switch (src.draw(7)) {
    case 0: {
        bool v = src.chance(70);
        if (v && src.chance(50))
            (void)std::move(b).create_registry();
        else
            (void)std::move(b).create_registry(v);
        c.registry = v;
        break;
    }
    case 1: {
        std::vector<r::address_ptr_t> l;
        for (auto &x : N->recs)
            if (x->registry)
                l.push_back(x->registry);
        if (l.empty() || src.chance(20)) {
            (void)std::move(b).registry_address({});
            c.reg_addr.reset();
        } else {
            c.reg_addr = src.pick(l);
            (void)std::move(b).registry_address(c.reg_addr);
        }
        break;
    }
    case 2: {
        bool v = src.chance(60);
        (void)std::move(b).synchronize_start(v);
        c.sync = v;
        break;
    }
    case 3: {
        auto v = src.chance(50) ? r::supervisor_policy_t::shutdown_failed : r::supervisor_policy_t::shutdown_self;
        (void)std::move(b).policy(v);
        c.policy = v;
        break;
    }
    case 4: {
        flag_no = (int)src.draw(3);
        c.flag = &N->flags[flag_no];
        c.freq = (uint64_t)src.range(1, 30) * MS;
        (void)std::move(b).shutdown_flag(*c.flag, us(c.freq));
        break;
    }
    case 5:
        c.queue = (size_t)src.range(1, 500);
        (void)std::move(b).inbound_queue_size(c.queue);
        break;
    case 6:
        c.poll = (uint64_t)src.range(0, 50) * MS;
        (void)std::move(b).poll_duration(us(c.poll));
        break;
    }
}

struct snap_t {
    uint64_t live = W->live_objects;
    size_t timers = W->timers.size(), mons = W->mons.size(), errors = W->errors.size(), inbound = 0, queues = 0;
    r::supervisor_t *root;
    snap_t() : root{N->ctx->get_supervisor().get()} {
        for (auto &l : W->locs) {
            inbound += l->inbound.size();
            queues += l->leader ? l->leader->queue_len() : 0;
        }
    }
    void same(const snap_t &o, const char *what, bool built) const {
        EXPECT(live == o.live && (built || mons == o.mons), "refused", "%s: an instance appears", what);
        EXPECT(timers == o.timers && inbound == o.inbound && queues == o.queues && root == o.root, "refused",
               "%s: the system is changed (timers %zu/%zu, queues %zu/%zu)", what, timers, o.timers, queues, o.queues);
    }
};

template <typename S, typename B> S *build(B &&b, int kind, int parent, bool root_taken, rec_t *&res) {
    auto &src = W->src;
    auto r = std::make_unique<rec_t>();
    r->kind = kind;
    r->parent = parent;
    bool complete = src.chance(80);
    loc_t *l = nullptr;
    if constexpr (std::is_base_of_v<r::supervisor_t, S>) {
        if (parent < 0)
            l = W->locs.empty() ? W->new_loc() : W->loc(0);
        else
            l = src.chance(40) ? W->new_loc() : static_cast<sup_t *>(N->recs[parent]->m->ptr)->loc;
        (void)std::move(b).loc(l);
    }
    for (auto n = src.range(0, 8); n > 0; --n) {
        if constexpr (std::is_base_of_v<r::supervisor_t, S>) {
            if (src.chance(45)) {
                special(b, r->c, r->flag_no);
                continue;
            }
        }
        if constexpr (std::is_same_v<S, named_t>) {
            if (src.chance(40)) {
                if (src.chance(60)) {
                    r->c.nm = "name " + std::to_string(src.draw(100));
                    (void)std::move(b).nm(*r->c.nm);
                } else {
                    r->c.extra = (int)src.range(0, 12) - 2;
                    (void)std::move(b).extra(r->c.extra);
                }
                continue;
            }
        }
        common(b, r->c, complete);
    }
    if (complete) {
        if (!r->c.init) {
            r->c.init = (uint64_t)src.range(1, 60) * MS;
            (void)std::move(b).init_timeout(us(*r->c.init));
        }
        if (!r->c.shut) {
            r->c.shut = (uint64_t)src.range(1, 60) * MS;
            (void)std::move(b).shutdown_timeout(us(*r->c.shut));
        }
    }
    bool ok = r->c.valid(kind);
    W->next_parent = parent < 0 ? -1 : N->recs[parent]->m->id;
    r->holds = parent >= 0 && src.chance(15);
    if (ok && r->holds) {
        NEXT.cfg_fn = [](r::plugin::plugin_base_t &p) {
            p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { p.acquire(); });
        };
    }
    snap_t before;
    std::string what = std::string(kind == 0 ? "supervisor" : kind == 1 ? "actor" : "named actor");
    eng::trace("  create %s: init %ld, shutdown %ld%s%s%s%s%s", what.c_str(), r->c.init ? (long)*r->c.init : -1L, r->c.shut ? (long)*r->c.shut : -1L,
               r->c.registry ? ", registry" : "", r->c.reg_addr ? ", registry address" : "", r->c.flag ? ", flag" : "", ok ? "" : ", invalid",
               r->holds ? ", does not initialize" : "");
    r::intrusive_ptr_t<S> p;
    auto lid = parent < 0 ? 0 : N->recs[parent]->m->loc;
    W->in_loc(lid, [&] { p = std::move(b).finish(); });
    NEXT = {};
    W->next_parent = -1;
    snap_t after;
    res = nullptr;
    if (!ok || root_taken) {
        EXPECT(!p, "refused", "a %s is created, though %s", what.c_str(), ok ? "there is a root supervisor already" : "its configuration is not complete");
        after.same(before, what.c_str(), ok);
        EXPECT(after.errors == before.errors + 1, "report", "%zu errors are reported about a refused %s", after.errors - before.errors, what.c_str());
        auto &e = W->errors.back();
        auto exp = ok ? r::error_code_t::supervisor_defined : r::error_code_t::actor_misconfigured;
        EXPECT(e.root == r::make_error_code(exp), "report", "wrong error %s is reported about a refused %s", e.msg.c_str(), what.c_str());
        EXPECT(e.msg.find("sim ") == 0, "report", "the error '%s' does not tell the context", e.msg.c_str());
        ++(ok ? N->second_roots : N->refused);
        return nullptr;
    }
    ++N->created;
    EXPECT(p, "created", "a %s is not created in spite of a valid configuration", what.c_str());
    EXPECT(after.errors == before.errors, "created", "an error is reported about a valid %s: %s", what.c_str(), W->errors.back().msg.c_str());
    EXPECT(after.live > before.live && p->get_address(), "created", "no %s", what.c_str());
    if (parent < 0)
        EXPECT(N->ctx->get_supervisor().get() == (r::supervisor_t *)(void *)nullptr || after.root, "created", "no root");
    r->m = p->m;
    r->born = W->now;
    res = r.get();
    N->recs.push_back(std::move(r));
    auto &c = res->c;
    if constexpr (std::is_base_of_v<r::supervisor_t, S>) {
        W->keep.push_back(p);
        EXPECT(p->cfg_init() == us(*c.init) && p->cfg_shut() == us(*c.shut), "setting", "timeouts");
        EXPECT(p->q() == c.queue && p->p() == us(c.poll), "setting", "inbound queue size %zu, poll duration: expected %zu and %lu us", p->q(), c.queue,
               (unsigned long)c.poll);
        // the registry
        auto addr = p->get_registry_address();
        if (c.registry) {
            EXPECT(addr, "registry", "no registry");
            for (auto &x : N->recs)
                EXPECT(x->registry != addr, "registry", "the new registry is an old one");
        } else if (c.reg_addr)
            EXPECT(addr == c.reg_addr, "registry", "the given registry address is not used");
        else
            EXPECT(addr == (parent >= 0 ? N->recs[parent]->registry : r::address_ptr_t{}), "registry", "the registry address is not inherited");
        res->registry = addr;
    } else {
        EXPECT(&p->get_supervisor() == N->recs[parent]->m->ptr, "setting", "wrong supervisor");
        if constexpr (std::is_same_v<S, named_t>)
            EXPECT(p->nm == *c.nm && p->extra == c.extra, "setting", "settings of the user");
    }
    return p.get();
}

void check() {
    auto &n = *N;
    for (auto &p : n.recs) {
        auto &x = *p;
        auto &m = *x.m;
        if (x.down_at) {
            EXPECT(m.stopping(), "not-down", "%s should have been shut down at %lu", m.name.c_str(), (unsigned long)*x.down_at);
            EXPECT(m.t_at[H_SHUTDOWN_START] == *x.down_at, "down-time", "%s is shut down at %lu, expected %lu", m.name.c_str(),
                   (unsigned long)m.t_at[H_SHUTDOWN_START], (unsigned long)*x.down_at);
        } else {
            EXPECT(!m.stopping(), "down", "%s is shut down for no reason", m.name.c_str());
            EXPECT(m.operational() != x.holds, "operational", "%s is %soperational", m.name.c_str(), x.holds ? "" : "not ");
        }
    }
}

// lets the time go until the next predicted event
void advance(uint64_t till) {
    auto &n = *N;
    auto &w = *W;
    while (true) {
        uint64_t t = till;
        for (auto &x : n.recs) {
            if (!x->down_at && x->holds)
                t = std::min(t, x->born + *x->c.init);
            if (!x->down_at && !x->holds && x->flag_no >= 0 && n.flag_set.count(x->flag_no)) {
                auto s = x->m->t_at[H_ON_START];
                auto f = n.flag_set[x->flag_no];
                // the first poll which sees the flag
                auto k = f < s ? 1 : (f - s) / x->c.freq + 1;
                uint64_t at = s + k * x->c.freq;
                t = std::min(t, std::max(at, w.now + 1));
            }
        }
        if (t > w.now && t - w.now > 1)
            w.settle(t - 1);
        w.now = std::max(w.now, t > 0 ? t - 1 : 0);
        check();
        w.settle(t);
        w.now = std::max(w.now, t);
        // what had to happen
        for (auto &x : n.recs)
            if (!x->down_at && x->holds && x->born + *x->c.init <= t) {
                // (at the same moment it might have been stopped by its supervisor)
                auto &p = *n.recs[x->parent]->m;
                if (!(p.stopping() && x->m->stopping() && p.at[H_SHUTDOWN_START] < x->m->at[H_SHUTDOWN_START]))
                    n.down(*x, true);
            }
        for (auto &x : n.recs)
            if (!x->down_at && !x->holds && x->flag_no >= 0 && n.flag_set.count(x->flag_no) && x->m->stopping())
                n.down(*x, false);
        for (auto &x : n.recs)
            if (!x->down_at && !x->holds && x->flag_no >= 0 && n.flag_set.count(x->flag_no))
                EXPECT(t <= std::max(n.flag_set[x->flag_no], x->m->t_at[H_ON_START]) + x->c.freq, "flag",
                       "%s is not shut down, its flag was set at %lu, it is polled each %lu us", x->m->name.c_str(),
                       (unsigned long)n.flag_set[x->flag_no], (unsigned long)x->c.freq);
        check();
        if (t >= till)
            return;
    }
}

// a fatal error, which the user does not handle: it is written and the program is aborted (in a child process)
void fatal_case(src_t &src, rec_t *root) {
    struct default_ctx_t : r::system_context_t {};
    int what = (int)src.range(0, 3), code = (int)src.range(1, 9);
    eng::label("fatal error is not handled");
    int fd[2];
    EXPECT(!pipe(fd), "harness", "no pipe");
    auto pid = fork();
    if (!pid) {
        signal(SIGABRT, SIG_DFL);
        rlimit no_core{0, 0};
        setrlimit(RLIMIT_CORE, &no_core);
        std::set_terminate([] { abort(); });
        dup2(fd[1], 2);
        r::intrusive_ptr_t<r::system_context_t> ctx(new default_ctx_t());
        auto tmo = r::pt::milliseconds{1};
        if (what == 0)
            ctx->create_supervisor<oplain_t>().finish();
        else if (what == 1)
            ctx->create_supervisor<osup_t>().init_timeout(tmo).finish();
        else if (what == 2)
            ctx->on_error(nullptr, r::make_error("the context", r::make_error_code((r::error_code_t)code)));
        else
            ctx->on_error(root->m->ptr, r::make_error("the context", r::make_error_code((r::error_code_t)code)));
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char buf[1024];
    for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;)
        out.append(buf, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    eng::trace("fatal error %d: status %x, '%s'", what, st, out.c_str());
    EXPECT(WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, "fatal", "the program is not aborted (status 0x%x)", st);
    auto ec = r::make_error_code(what < 2 ? r::error_code_t::actor_misconfigured : (r::error_code_t)code);
    EXPECT(out.find(ec.message()) != std::string::npos, "fatal", "the error is not written, but '%s'", out.c_str());
    EXPECT(what < 2 || out.find("the context") != std::string::npos, "fatal", "the context of the error is not written, but '%s'", out.c_str());
    if (what == 3) {
        auto id = root->m->ptr->get_identity();
        EXPECT(out.find(id) != std::string::npos, "fatal", "the identity %s is not written, but '%s'", id.c_str(), out.c_str());
    }
}

void run(src_t &src) {
    world_t w(src);
    net_t n(src);
    N = &n;
    n.ctx = new ctx_t();
    w.ctxs.push_back(n.ctx);
    w.new_loc();
    rec_t *root = nullptr;
    auto try_root = [&] {
        rec_t *x = nullptr;
        if (src.chance(50))
            build<osup_t>(n.ctx->create_supervisor<osup_t>(), 0, -1, root != nullptr, x);
        else
            build<oplain_t>(n.ctx->create_supervisor<oplain_t>(), 0, -1, root != nullptr, x);
        if (x)
            root = x;
        w.settle(w.now);
    };
    for (int i = 0; i < 6 && !root; ++i)
        try_root();
    if (!root) {
        eng::label("no root supervisor");
        check_nothing_left("leftover");
        N = nullptr;
        return;
    }
    if (src.chance(1))
        fatal_case(src, root);
    check();
    int steps = (int)src.range(3, 30);
    rec_t *hung = nullptr;
    for (int i = 0; i < steps; ++i) {
        auto k = src.weighted({60, 20, 10, 5, 8});
        std::vector<int> sups, all;
        for (size_t j = 0; j < n.recs.size(); ++j)
            if (!n.recs[j]->down_at && n.recs[j]->m->operational()) {
                all.push_back((int)j);
                if (n.recs[j]->kind == 0)
                    sups.push_back((int)j);
            }
        if (all.empty())
            break;
        if (k == 0 && n.recs.size() < 14) {
            int p = src.pick(sups);
            auto &s = *static_cast<sup_t *>(n.recs[p]->m->ptr);
            rec_t *x;
            switch (src.draw(4)) {
            case 0:
                build<osup_t>(s.create_actor<osup_t>(), 0, p, false, x);
                break;
            case 1:
                build<oplain_t>(s.create_actor<oplain_t>(), 0, p, false, x);
                break;
            case 2:
                build<oact_t>(s.create_actor<oact_t>(), 1, p, false, x);
                break;
            default:
                build<named_t>(s.create_actor<named_t>(), 2, p, false, x);
            }
            w.settle(w.now);
            check();
        } else if (k == 1) {
            advance(w.now + (uint64_t)src.range(1, 50) * MS);
        } else if (k == 2) { // stops, normally or not
            int j = src.pick(all);
            std::vector<int> early; // stopped (and hanging) before it is initialized
            for (size_t i = 0; i < n.recs.size(); ++i)
                if (!n.recs[i]->down_at && n.recs[i]->kind == 1 && n.recs[i]->holds && n.recs[i]->m->phase() == 1 && n.recs[n.recs[i]->parent]->m->operational())
                    early.push_back((int)i);
            bool is_early = !early.empty() && src.chance(20);
            if (is_early)
                j = src.pick(early);
            auto &x = *n.recs[j];
            if (j == 0 && src.chance(70))
                continue;
            bool fail = src.chance(50);
            bool hang = is_early || (x.kind == 1 && src.chance(40));
            auto *a = x.m->ptr;
            eng::trace("  stop %s%s%s", x.m->name.c_str(), fail ? " with a failure" : "", hang ? ", it hangs" : "");
            w.in_loc(x.m->loc, [&] {
                if (hang) {
                    static_cast<oact_t *>(a)->hangs = true;
                    static_cast<oact_t *>(a)->rs()->acquire();
                }
                auto ec = r::make_error_code(r::error_code_t::cancelled);
                if (fail)
                    a->do_shutdown(r::make_error("test", ec));
                else
                    a->do_shutdown();
            });
            ++n.checked_down;
            if (hang) { // the end of the case: what follows is up to the user (on_error)
                r::intrusive_ptr_t<oact_t> guard(static_cast<oact_t *>(a));
                ++n.hung;
                w.settle(w.now);
                auto t0 = w.now;
                // only the shutdown timeout is checked, the rest of the tree is irrelevant now
                uint64_t at = t0 + *x.c.shut;
                EXPECT(!x.m->down(), "hang", "%s is shut down, though it holds a resource", x.m->name.c_str());
                auto said = [&] {
                    for (auto &e : w.errors)
                        if (e.actor == x.m->id && e.root == r::make_error_code(r::error_code_t::request_timeout))
                            return true;
                    return false;
                };
                w.settle(at - 1);
                EXPECT(!said(), "shutdown-timeout", "the shutdown of %s is timed out too early", x.m->name.c_str());
                w.settle(at);
                EXPECT(said(), "shutdown-timeout", "the shutdown of %s is not timed out after %lu us", x.m->name.c_str(), (unsigned long)*x.c.shut);
                w.in_loc(x.m->loc, [&] {
                    guard->rs()->release();
                    if (is_early)
                        guard->rs()->release();
                });
                w.settle(w.now);
                EXPECT(x.m->down(), "hang", "%s is not shut down after it has released its resource", x.m->name.c_str());
                hung = &x;
                eng::label("shutdown timeout");
                if (is_early)
                    eng::label("shutdown timeout during initialization");
                break;
            }
            w.settle(w.now);
            n.down(x, fail);
            check();
        } else if (k == 3) {
            try_root();
        } else if (k == 4) {
            int f = (int)src.draw(3);
            if (n.flag_set.count(f))
                continue;
            eng::trace("  flag %d is set at %lu", f, (unsigned long)w.now);
            n.flags[f] = true;
            n.flag_set[f] = w.now;
            bool any = false;
            for (auto &x : n.recs)
                any |= x->flag_no == f && !x->down_at;
            if (any)
                eng::label("shutdown flag");
        }
    }
    if (!hung)
        advance(w.now + 70 * MS);
    eng::count("created", n.created);
    eng::count("refused as misconfigured", n.refused);
    eng::count("refused second root", n.second_roots);
    if (n.created >= 2 && n.refused + n.second_roots >= 1)
        eng::nontrivial();
    if (!root->m->stopping())
        w.in_loc(root->m->loc, [&] { root->m->ptr->do_shutdown(); });
    w.settle(w.now + LIMIT);
    for (auto &x : n.recs) {
        EXPECT(x->m->down(), "leftover", "%s is not shut down", x->m->name.c_str());
        x->registry.reset();
        x->c.reg_addr.reset();
    }
    n.recs.clear();
    n.ctx.reset();
    check_nothing_left("leftover");
    N = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C18",
    "trees of up to 14 supervisors, actors and actors with user-defined requirements, each built by a random sequence of settings (complete or not, "
    "contradicting, repeated), second root supervisors; effect of timeouts, escalation, registry inheritance and shutdown flags in virtual time; "
    "non-trivial: at least two created and one refused",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
