// C20: the asio backend
#include "rt.h"
#include "rotor/asio.hpp"

namespace ra = rotor::asio;
namespace asio = boost::asio;
using namespace rt;

namespace {
struct ctx_t : ra::system_context_asio_t {
    using ra::system_context_asio_t::system_context_asio_t;
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) noexcept override {
        eng::fail("error", "the context got an error: %s", ec->message().c_str());
    }
};
using sup = sup_t<ra::supervisor_asio_t>;
using strand_ptr_t = std::shared_ptr<asio::io_context::strand>;

struct call_t {
    int id;
    mon_t *to;
    int form; // 0: no argument, 1: with argument; +2: with error handler, +4: an error occurs
    int done = 0;
};
std::vector<std::unique_ptr<call_t>> calls;
struct arg_t : counted_t {
    std::unique_ptr<int> id; // movable only
    explicit arg_t(int i) : id{new int(i)} {}
    arg_t(arg_t &&) = default;
};
// forwarders identify themselves only by their argument, hence calls without arguments are counted per actor
struct caller_t : actor_t {
    using actor_t::actor_t;
    static void took_place(mon_t &m, int form, int id) {
        call_t *c = nullptr;
        for (auto &p : calls)
            if (p->to == &m && p->form == form && (id < 0 ? !p->done : p->id == id))
                c = p.get();
        EXPECT(c, "call", "%s: a forwarded call of a wrong form (%d) or with a wrong argument", m.name.c_str(), form);
        EXPECT(!c->done++, "call twice", "the forwarded call %d of %s takes place twice", c->id, m.name.c_str());
        --W->outstanding;
        eng::trace("%lld %s: call %d takes place", (long long)(vt::now() / US), m.name.c_str(), c->id);
    }
    void plain() noexcept {
        here_t h(m, "a forwarded call", true);
        took_place(m, 0, -1);
        act();
    }
    void with_arg(arg_t a) noexcept {
        here_t h(m, "a forwarded call", true);
        took_place(m, 1, *a.id);
        act();
    }
    void checked() noexcept {
        here_t h(m, "a forwarded call", true);
        took_place(m, 2, -1);
        act();
    }
    void checked_arg(const arg_t &a) noexcept {
        here_t h(m, "a forwarded call", true);
        took_place(m, 3, *a.id);
        act();
    }
    void failed(const boost::system::error_code &ec) noexcept {
        here_t h(m, "a forwarded call", true);
        EXPECT(ec == asio::error::timed_out, "call", "%s: a forwarded call with another error", m.name.c_str());
        took_place(m, 6, -1);
        act();
    }
    void failed_arg(const boost::system::error_code &ec) noexcept {
        here_t h(m, "a forwarded call", true);
        EXPECT(ec == asio::error::eof, "call", "%s: a forwarded call with another error", m.name.c_str());
        took_place(m, 7, -1);
        act();
    }
};
void forward(mon_t &to, asio::io_context &via, uint32_t form, uint32_t how) {
    auto c = std::make_unique<call_t>();
    c->id = (int)calls.size();
    c->to = &to;
    c->form = (int)form;
    auto id = c->id;
    eng::trace("%lld call %d of form %d to %s%s", (long long)(vt::now() / US), id, (int)form, to.name.c_str(), how ? ", posted" : "");
    calls.push_back(std::move(c));
    ++W->outstanding;
    auto &a = *static_cast<caller_t *>(to.actor);
    boost::system::error_code none, timed_out = asio::error::timed_out, eof = asio::error::eof;
    auto go = [&](auto &&fn) {
        if (how)
            asio::post(via, std::move(fn));
        else
            fn();
    };
    switch (form) {
    case 0:
        return go([f = ra::forwarder_t(a, &caller_t::plain)]() mutable { f(); });
    case 1:
        return go([f = ra::forwarder_t(a, &caller_t::with_arg), id]() mutable { f(arg_t{id}); });
    case 2:
        return go([f = ra::forwarder_t(a, &caller_t::checked, &caller_t::failed), none]() mutable { f(none); });
    case 3:
        return go([f = ra::forwarder_t(a, &caller_t::checked_arg, &caller_t::failed_arg), none, id]() mutable { f(none, arg_t{id}); });
    case 6:
        return go([f = ra::forwarder_t(a, &caller_t::checked, &caller_t::failed), timed_out]() mutable { f(timed_out); });
    default:
        return go([f = ra::forwarder_t(a, &caller_t::checked_arg, &caller_t::failed_arg), eof, id]() mutable { f(eof, arg_t{id}); });
    }
}

void run(src_t &src) {
    calls.clear();
    world_t w(src);
    draw_traffic(w);
    auto opts = draw_schedule(w);
    int n_ctx = (int)src.weighted({3, 2}) + 1;
    std::vector<std::unique_ptr<asio::io_context>> ios;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<std::unique_ptr<std::atomic_bool>> flags;
    w.time_base = [&](mon_t &, bool) { return vt::now(); };
    w.stop = [](mon_t &m) { m.keep->shutdown(); };
    w.extra = [&](actor_t &) {
        std::vector<mon_t *> alive;
        for (auto a : w.actors)
            if (a->actor && a->started && !a->down_begun)
                alive.push_back(a);
        static const uint32_t forms[] = {0, 1, 2, 3, 6, 7};
        auto &to = *w.src.pick(alive);
        auto form = forms[w.src.draw(6)];
        auto &via = *ios[w.src.draw((uint32_t)ios.size())];
        forward(to, via, form, w.src.draw(2));
    };
    vt::run(src, opts, [&] {
        std::vector<int> threads;
        for (int i = 0; i < n_ctx; ++i) {
            threads.push_back((int)src.range(1, 3));
            ios.push_back(std::make_unique<asio::io_context>());
        }
        auto new_loc = [&](asio::io_context &io, strand_ptr_t &out) {
            out = std::make_shared<asio::io_context::strand>(io);
            auto l = w.new_loc();
            l->here = [s = out.get()] { return s->running_in_this_thread(); };
            return l;
        };
        int n_roots = (int)src.range(n_ctx, 3);
        for (int i = 0; i < n_roots; ++i) {
            auto &io = *ios[i % n_ctx];
            strand_ptr_t strand;
            auto l = new_loc(io, strand);
            ctxs.emplace_back(new ctx_t(io));
            auto &m = w.new_mon(true, l, nullptr);
            auto poll = draw_poll(src);
            auto b = ctxs.back()->create_supervisor<sup>().mon(&m).strand(strand).guard_context(true).timeout(r::pt::seconds{60}).poll_duration(poll);
            if (src.chance(30)) {
                flags.push_back(std::make_unique<std::atomic_bool>(false));
                m.flag = flags.back().get();
                auto least = 1 + 4 * poll.total_milliseconds();
                std::move(b).shutdown_flag(*m.flag, r::pt::milliseconds{(int)src.range(least, least + 29)});
            }
            auto s = std::move(b).finish();
            m.keep = s;
            m.addr = s->get_address();
            auto parent = s;
            auto pstrand = strand;
            int nested = (int)src.weighted({3, 2, 1});
            auto k = (int)src.range(1, 2);
            while (k--) {
                auto &a = w.new_mon(false, l, &m);
                a.addr = s->create_actor<caller_t>().mon(&a).timeout(r::pt::seconds{60}).finish()->get_address();
                w.subs[a.id].push_back(a.id);
            }
            while (nested--) {
                auto st = pstrand;
                auto cl = parent->m.loc;
                if (src.chance(50)) // a strand of its own, maybe in another context
                    cl = new_loc(src.chance(70) ? io : *ios[src.draw((uint32_t)ios.size())], st);
                auto &c = w.new_mon(true, cl, &parent->m);
                auto cs = parent->create_actor<sup>().mon(&c).strand(st).guard_context(true).timeout(r::pt::seconds{60}).poll_duration(draw_poll(src)).finish();
                c.keep = cs;
                c.addr = cs->get_address();
                auto k = (int)src.range(1, 2);
                while (k--) {
                    auto &a = w.new_mon(false, cl, &c);
                    a.addr = cs->create_actor<caller_t>().mon(&a).timeout(r::pt::seconds{60}).finish()->get_address();
                    w.subs[a.id].push_back(a.id);
                }
                if (src.chance(50)) {
                    parent = cs;
                    pstrand = st;
                }
            }
        }
        draw_foreign(w);
        for (int i = 0; i < n_ctx; ++i)
            for (int k = 0; k < threads[i]; ++k)
                vt::spawn("io " + std::to_string(i) + "/" + std::to_string(k), [&, i] { ios[i]->run(); });
        vt::spawn("controller", [&] {
            controller(w, [&] {
                for (auto m : w.roots)
                    m->keep->start();
            });
        });
    });
    finish(w);
    for (auto &m : w.mons)
        m->keep.reset();
    ctxs.clear();
    ios.clear(); // what has been posted after the end
    finish_released(w);
    for (auto &c : calls)
        EXPECT(c->done == 1 || w.abrupt, "call lost", "the forwarded call %d to %s has not taken place", c->id, c->to->name.c_str());
    if (!calls.empty())
        eng::label("forwarded calls");
}
} // namespace

eng::property_t eng::property = {
    "C20",
    "at least 4 messages were delivered and a timer or a request was finished",
    12000, 200000, 50, 8, 5, 0, run, nullptr};
