// C19: the thread backend, real threads under TSAN
#include "race.h"
#include "rotor/thread.hpp"

namespace rth = rotor::thread;
using namespace race;

namespace {
void run(src_t &src) {
    world_t w;
    begin();
    int n_loops = (int)src.range(1, 3);
    std::vector<r::intrusive_ptr_t<rth::system_context_thread_t>> ctxs;
    static const int polls[] = {0, 100, 1000};
    for (int i = 0; i < n_loops; ++i) {
        ctxs.emplace_back(new rth::system_context_thread_t());
        auto s = ctxs.back()->create_supervisor<rth::supervisor_thread_t>().timeout(r::pt::seconds{300}).poll_duration(r::pt::microseconds{polls[src.draw(3)]}).finish();
        w.roots.push_back(s);
        w.sups.push_back(s);
        auto k = (int)src.range(1, 3);
        while (k--)
            add_actor(w, *s, true);
        auto nested = (int)src.draw(3);
        while (nested--) {
            auto c = s->create_actor<rth::supervisor_thread_t>().timeout(r::pt::seconds{300}).finish();
            w.sups.push_back(c);
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *c, true);
            if (src.chance(50))
                s = c;
        }
    }
    draw(w, src);
    std::vector<std::thread> th;
    for (auto &c : ctxs)
        th.emplace_back([c = c.get()] { c->run(); });
    control(w, [](r::supervisor_t &s) { s.shutdown(); });
    for (auto &t : th)
        t.join();
    end();
    judge(w);
    w.roots.clear();
    while (!w.sups.empty())
        w.sups.pop_back();
}
} // namespace

eng::property_t eng::property = {"C19", "at least 12 handlers have been run", 1500, 30000, 10, 6, 1000, 60, run, nullptr};
