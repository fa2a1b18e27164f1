// C19: the thread backend
#include "rt.h"
#include "rotor/thread.hpp"

namespace rth = rotor::thread;
using namespace rt;

namespace {
struct ctx_t : rth::system_context_thread_t {
    void on_error(r::actor_base_t *a, const r::extended_error_ptr_t &ec) noexcept override {
        eng::fail("error", "the context got an error: %s", ec->message().c_str());
    }
};
using sup = sup_t<rth::supervisor_thread_t>;

void run(src_t &src) {
    world_t w(src);
    draw_traffic(w);
    auto opts = draw_schedule(w);
    int n_loops = (int)src.range(1, 3);
    w.ordered_timers = w.prompt_timers = true;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<ns_t> io_exit(n_loops, 0);
    std::vector<std::unique_ptr<std::atomic_bool>> flags;
    w.time_base = [&](mon_t &m, bool io) -> ns_t {
        // the time is taken after every wait and around every blocking handler
        return io ? vt::now() : std::max(vt::last_wake(m.loc->thread), m.loc->refreshed);
    };
    w.extra = [](actor_t &a) { // after a long calculation, say
        eng::trace("%lld %s updates the time", (long long)(vt::now() / US), a.m.name.c_str());
        auto at = vt::now();
        static_cast<rth::supervisor_thread_t &>(a.get_supervisor_base()).update_time();
        a.m.loc->refreshed = std::max(a.m.loc->refreshed, at);
        for (auto &p : W->timers) {
            auto &t = p.second;
            EXPECT(!t.active || t.owner->loc != a.m.loc || t.owner->down || t.upper + t.interval >= at, "late timer",
                   "%s: the timer %llu (deadline %lld) has not fired, although the time was updated at %lld", t.owner->name.c_str(),
                   (unsigned long long)t.no, (long long)((t.upper + t.interval) / US), (long long)(at / US));
        }
    };
    w.stop = [](mon_t &m) { m.keep->shutdown(); };
    vt::run(src, opts, [&] {
        for (int i = 0; i < n_loops; ++i) {
            auto l = w.new_loc();
            ctxs.emplace_back(new ctx_t());
            auto &m = w.new_mon(true, l, nullptr);
            auto poll = draw_poll(src);
            auto b = ctxs.back()->create_supervisor<sup>().mon(&m).timeout(r::pt::seconds{60}).poll_duration(poll);
            if (src.chance(40)) {
                flags.push_back(std::make_unique<std::atomic_bool>(false));
                m.flag = flags.back().get();
                // the loops have to wait at the same moment, now and then
                auto least = 1 + 4 * poll.total_milliseconds();
                std::move(b).shutdown_flag(*m.flag, r::pt::milliseconds{(int)src.range(least, least + 29)});
            }
            auto s = std::move(b).finish();
            m.keep = s;
            m.addr = s->get_address();
            auto parent = s;
            int nested = (int)src.weighted({3, 2, 1});
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *s);
            while (nested--) {
                auto &c = w.new_mon(true, l, &parent->m);
                auto cs = parent->create_actor<sup>().mon(&c).timeout(r::pt::seconds{60}).finish();
                c.keep = cs;
                c.addr = cs->get_address();
                auto k = (int)src.range(1, 2);
                while (k--)
                    add_actor(w, *cs);
                if (src.chance(50))
                    parent = cs;
            }
        }
        draw_foreign(w);
        for (int i = 0; i < n_loops; ++i)
            w.locs[i]->thread = vt::spawn("loop " + std::to_string(i), [&, i] { ctxs[i]->run(); });
        vt::spawn("controller", [&] {
            controller(w, [&] {
                for (auto m : w.roots)
                    m->keep->start();
            });
        });
    });
    finish(w);
    for (auto &m : w.mons)
        m->keep.reset();
    ctxs.clear();
    finish_released(w);
}
} // namespace

eng::property_t eng::property = {
    "C19",
    "at least 4 messages were delivered and a timer or a request was finished",
    12000, 200000, 50, 8, 5, 0, run, nullptr};
