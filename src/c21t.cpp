// C21: the libev backend, real threads under TSAN
#include "race.h"
#include "rotor/ev.hpp"

namespace re = rotor::ev;
using namespace race;

namespace {
void run(src_t &src) {
    world_t w;
    begin();
    int n_loops = (int)src.range(1, 3);
    std::vector<struct ev_loop *> loops;
    std::vector<r::intrusive_ptr_t<re::system_context_ev_t>> ctxs;
    static const int polls[] = {0, 100, 1000};
    for (int i = 0; i < n_loops; ++i) {
        loops.push_back(ev_loop_new(EVFLAG_AUTO));
        ctxs.emplace_back(new re::system_context_ev_t());
        auto s = ctxs.back()->create_supervisor<re::supervisor_ev_t>().loop(loops[i]).loop_ownership(false).timeout(r::pt::seconds{300}).poll_duration(r::pt::microseconds{polls[src.draw(3)]}).finish();
        w.roots.push_back(s);
        w.sups.push_back(s);
        auto k = (int)src.range(1, 3);
        while (k--)
            add_actor(w, *s, true);
        auto nested = (int)src.draw(3);
        while (nested--) {
            auto c = s->create_actor<re::supervisor_ev_t>().loop(loops[i]).loop_ownership(false).timeout(r::pt::seconds{300}).finish();
            w.sups.push_back(c);
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *c, true);
            if (src.chance(50))
                s = c;
        }
    }
    draw(w, src);
    std::vector<std::thread> th;
    for (auto l : loops)
        th.emplace_back([l] { ev_run(l, 0); });
    for (auto &s : w.roots)
        s->start();
    control(w, [](r::supervisor_t &s) { s.shutdown(); });
    for (auto &t : th)
        t.join();
    end();
    judge(w);
    w.roots.clear();
    while (!w.sups.empty())
        w.sups.pop_back();
    ctxs.clear();
    for (auto l : loops)
        ev_loop_destroy(l);
}
} // namespace

eng::property_t eng::property = {"C21", "at least 12 handlers have been run", 1500, 30000, 10, 6, 1000, 60, run, nullptr};
