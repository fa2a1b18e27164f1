// C21: the libev backend
#include "rt.h"
#include "rotor/ev.hpp"

namespace re = rotor::ev;
using namespace rt;

namespace {
struct ctx_t : re::system_context_ev_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) noexcept override {
        eng::fail("error", "the context got an error: %s", ec->message().c_str());
    }
};
using sup = sup_t<re::supervisor_ev_t>;

void run(src_t &src) {
    static bool probed = (ev_loop_destroy(ev_loop_new(EVFLAG_AUTO)), true); // libev looks for its clocks once
    (void)probed;
    world_t w(src);
    draw_traffic(w);
    auto opts = draw_schedule(w);
    int n_loops = (int)src.range(1, 3);
    std::vector<struct ev_loop *> loops;
    std::vector<char> owned;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<std::unique_ptr<std::atomic_bool>> flags;
    // libev takes the time after every wait
    w.time_base = [&](mon_t &m, bool) -> ns_t { return vt::last_wake(m.loc->thread); };
    w.stop = [](mon_t &m) { m.keep->shutdown(); };
    vt::run(src, opts, [&] {
        for (int i = 0; i < n_loops; ++i) {
            loops.push_back(ev_loop_new(EVFLAG_AUTO));
            int n_roots = (int)src.weighted({4, 1}) + 1;
            owned.push_back(n_roots == 1 && src.chance(50));
            while (n_roots--) {
                auto l = w.new_loc();
                l->thread = i; // the number of the loop, for now
                ctxs.emplace_back(new ctx_t());
                auto &m = w.new_mon(true, l, nullptr);
                auto poll = draw_poll(src);
                auto b = ctxs.back()->create_supervisor<sup>().mon(&m).loop(loops[i]).loop_ownership(owned[i]).timeout(r::pt::seconds{60}).poll_duration(poll);
                if (src.chance(30)) {
                    flags.push_back(std::make_unique<std::atomic_bool>(false));
                    m.flag = flags.back().get();
                    auto least = 1 + 4 * poll.total_milliseconds();
                    std::move(b).shutdown_flag(*m.flag, r::pt::milliseconds{(int)src.range(least, least + 29)});
                }
                auto s = std::move(b).finish();
                m.keep = s;
                m.addr = s->get_address();
                auto parent = s;
                int nested = (int)src.weighted({3, 2, 1});
                auto k = (int)src.range(1, 2);
                while (k--)
                    add_actor(w, *s);
                while (nested--) {
                    auto &c = w.new_mon(true, l, &parent->m);
                    auto cs = parent->create_actor<sup>().mon(&c).loop(loops[i]).loop_ownership(false).timeout(r::pt::seconds{60}).poll_duration(draw_poll(src)).finish();
                    c.keep = cs;
                    c.addr = cs->get_address();
                    auto k = (int)src.range(1, 2);
                    while (k--)
                        add_actor(w, *cs);
                    if (src.chance(50))
                        parent = cs;
                }
            }
        }
        draw_foreign(w);
        std::vector<int> threads;
        for (int i = 0; i < n_loops; ++i)
            threads.push_back(vt::spawn("loop " + std::to_string(i), [&, i] { ev_run(loops[i], 0); }));
        for (auto &l : w.locs)
            l->thread = threads[l->thread];
        vt::spawn("controller", [&] {
            controller(w, [&] {
                for (auto m : w.roots)
                    m->keep->start();
            });
        });
    });
    finish(w);
    // the owner of the loop is released last
    for (auto it = w.mons.rbegin(); it != w.mons.rend(); ++it)
        (*it)->keep.reset();
    ctxs.clear();
    finish_released(w);
    for (size_t i = 0; i < loops.size(); ++i)
        if (!owned[i])
            ev_loop_destroy(loops[i]);
}
} // namespace

eng::property_t eng::property = {
    "C21",
    "at least 4 messages were delivered and a timer or a request was finished",
    12000, 200000, 50, 8, 5, 0, run, nullptr};
