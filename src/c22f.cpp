// C22: the fltk backend
#include "rt.h"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>

namespace rf = rotor::fltk;
using namespace rt;

namespace {
struct ctx_t : rf::system_context_fltk_t {
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) noexcept override {
        eng::fail("error", "the context got an error: %s", ec->message().c_str());
    }
};
using sup = sup_t<rf::supervisor_fltk_t>;

// FLTK's own state is brought to a known one: the time of the last look at the clock, the delay of the last timeout
void settle() {
    Fl::wait(0);
    for (int i = 0; i < 2; ++i) {
        bool fired = false;
        Fl::add_timeout(1, [](void *p) { *static_cast<bool *>(p) = true; }, &fired);
        while (!fired)
            Fl::wait(2);
    }
}
// one or two systems in the loop of the main thread, from the start to the release
void round(src_t &src, ns_t start) {
    world_t w(src);
    draw_traffic(w);
    auto opts = draw_schedule(w);
    opts.start = start;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<std::unique_ptr<std::atomic_bool>> flags;
    static const double waits[] = {0.1, 0.01, 1, 1e20};
    auto wait = waits[src.weighted({3, 2, 1, 1})];
    bool down = false;
    w.time_base = [&](mon_t &, bool) -> ns_t { return vt::now(); };
    w.stop = [](mon_t &m) { m.keep->shutdown(); };
    w.all_down = [&] {
        down = true;
        Fl::awake();
    };
    vt::run(src, opts, [&] {
        settle();
        int n_roots = (int)src.weighted({3, 1}) + 1;
        while (n_roots--) {
            auto l = w.new_loc();
            l->thread = vt::self();
            ctxs.emplace_back(new ctx_t());
            auto &m = w.new_mon(true, l, nullptr);
            auto b = ctxs.back()->create_supervisor<sup>().mon(&m).timeout(r::pt::seconds{60});
            if (src.chance(30)) {
                flags.push_back(std::make_unique<std::atomic_bool>(false));
                m.flag = flags.back().get();
                std::move(b).shutdown_flag(*m.flag, r::pt::milliseconds{(int)src.range(1, 30)});
            }
            auto s = std::move(b).finish();
            m.keep = s;
            m.addr = s->get_address();
            auto parent = s;
            int nested = (int)src.weighted({3, 2, 1});
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *s);
            while (nested--) {
                auto &c = w.new_mon(true, l, &parent->m);
                auto cs = parent->create_actor<sup>().mon(&c).timeout(r::pt::seconds{60}).finish();
                c.keep = cs;
                c.addr = cs->get_address();
                auto k = (int)src.range(1, 2);
                while (k--)
                    add_actor(w, *cs);
                if (src.chance(50))
                    parent = cs;
            }
        }
        draw_foreign(w);
        vt::spawn("controller", [&] {
            controller(w, [&] {
                for (auto m : w.roots)
                    m->keep->start();
            });
        });
        // as the examples do
        while (!down) {
            for (auto m : w.roots)
                m->keep->do_process();
            Fl::wait(wait);
        }
    });
    finish(w);
    for (auto it = w.mons.rbegin(); it != w.mons.rend(); ++it)
        (*it)->keep.reset();
    ctxs.clear();
    Fl::wait(0); // what was put in after the end
    finish_released(w);
}
void run(src_t &src) {
    Fl::lock();
    auto n = src.range(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        eng::trace("--- round %u", i);
        round(src, i ? vt::end_time() : 0);
    }
    Fl::unlock();
    if (n > 1)
        eng::label("created anew");
}
} // namespace

eng::property_t eng::property = {
    "C22",
    "at least 4 messages were delivered and a timer or a request was finished",
    12000, 200000, 50, 8, 5, 0, run, nullptr};
