// C22: the fltk backend, real threads under TSAN
#include "race.h"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>

namespace rf = rotor::fltk;
using namespace race;

namespace {
void run(src_t &src) {
    world_t w;
    begin();
    Fl::lock();
    std::vector<r::intrusive_ptr_t<rf::system_context_fltk_t>> ctxs;
    int n_roots = (int)src.weighted({3, 1}) + 1;
    while (n_roots--) {
        ctxs.emplace_back(new rf::system_context_fltk_t());
        auto s = ctxs.back()->create_supervisor<rf::supervisor_fltk_t>().timeout(r::pt::seconds{300}).finish();
        w.roots.push_back(s);
        w.sups.push_back(s);
        auto k = (int)src.range(1, 3);
        while (k--)
            add_actor(w, *s, true);
        auto nested = (int)src.draw(3);
        while (nested--) {
            auto c = s->create_actor<rf::supervisor_fltk_t>().timeout(r::pt::seconds{300}).finish();
            w.sups.push_back(c);
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *c, true);
            if (src.chance(50))
                s = c;
        }
    }
    draw(w, src);
    for (auto &s : w.roots)
        s->start();
    std::atomic_bool over{false};
    std::thread th([&] {
        control(w, [](r::supervisor_t &s) { s.shutdown(); });
        over = true;
        Fl::awake();
    });
    while (!over) {
        for (auto &s : w.roots)
            s->do_process();
        Fl::wait(0.1);
    }
    th.join();
    Fl::wait(0);
    end();
    judge(w);
    w.roots.clear();
    while (!w.sups.empty())
        w.sups.pop_back();
    ctxs.clear();
    Fl::wait(0);
    Fl::unlock();
}
} // namespace

eng::property_t eng::property = {"C22", "at least 12 handlers have been run", 1500, 30000, 10, 6, 1000, 60, run, nullptr};
