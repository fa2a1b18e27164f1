// C22: the wx backend
#include "rt.h"
#include "rotor/wx.hpp"
#include <wx/app.h>
#include <wx/apptrait.h>
#include <wx/evtloop.h>
#include <wx/init.h>

namespace rw = rotor::wx;
using namespace rt;

struct app_t : wxAppConsole {};
wxIMPLEMENT_APP_NO_MAIN(app_t);

namespace {
struct ctx_t : rw::system_context_wx_t {
    using rw::system_context_wx_t::system_context_wx_t;
    void on_error(r::actor_base_t *, const r::extended_error_ptr_t &ec) noexcept override {
        eng::fail("error", "the context got an error: %s", ec->message().c_str());
    }
};
using sup = sup_t<rw::supervisor_wx_t>;

// one or two systems in the loop of the main thread, from the start to the release
void round(src_t &src, ns_t start) {
    world_t w(src);
    draw_traffic(w);
    auto opts = draw_schedule(w);
    opts.start = start;
    std::vector<std::unique_ptr<wxEvtHandler>> handlers;
    std::vector<r::intrusive_ptr_t<ctx_t>> ctxs;
    std::vector<std::unique_ptr<std::atomic_bool>> flags;
    std::unique_ptr<wxEventLoopBase> loop(wxTheApp->GetTraits()->CreateEventLoop());
    w.time_base = [&](mon_t &, bool) -> ns_t { return vt::now(); };
    w.stop = [](mon_t &m) { m.keep->shutdown(); };
    w.all_down = [&] { handlers[0]->CallAfter([&] { loop->ScheduleExit(); }); };
    auto new_handler = [&] {
        handlers.push_back(std::make_unique<wxEvtHandler>());
        return handlers.back().get();
    };
    vt::run(src, opts, [&] {
        int n_roots = (int)src.weighted({3, 1}) + 1;
        while (n_roots--) {
            auto l = w.new_loc();
            l->thread = vt::self();
            ctxs.emplace_back(new ctx_t(nullptr));
            auto &m = w.new_mon(true, l, nullptr);
            auto b = ctxs.back()->create_supervisor<sup>().mon(&m).handler(new_handler()).timeout(r::pt::seconds{60});
            if (src.chance(30)) {
                flags.push_back(std::make_unique<std::atomic_bool>(false));
                m.flag = flags.back().get();
                std::move(b).shutdown_flag(*m.flag, r::pt::milliseconds{(int)src.range(5, 30)});
            }
            auto s = std::move(b).finish();
            m.keep = s;
            m.addr = s->get_address();
            auto parent = s;
            int nested = (int)src.weighted({3, 2, 1});
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *s);
            while (nested--) {
                auto &c = w.new_mon(true, l, &parent->m);
                auto cs = parent->create_actor<sup>().mon(&c).handler(src.chance(50) ? handlers.back().get() : new_handler()).timeout(r::pt::seconds{60}).finish();
                c.keep = cs;
                c.addr = cs->get_address();
                auto k = (int)src.range(1, 2);
                while (k--)
                    add_actor(w, *cs);
                if (src.chance(50))
                    parent = cs;
            }
        }
        draw_foreign(w);
        vt::spawn("controller", [&] {
            controller(w, [&] {
                for (auto m : w.roots)
                    m->keep->start();
            });
        });
        loop->Run();
    });
    finish(w);
    for (auto it = w.mons.rbegin(); it != w.mons.rend(); ++it)
        (*it)->keep.reset();
    ctxs.clear();
    handlers.clear(); // what was put in after the end
    finish_released(w);
}
void run(src_t &src) {
    static wxInitializer init;
    auto n = src.range(1, 2);
    for (unsigned i = 0; i < n; ++i) {
        eng::trace("--- round %u", i);
        round(src, i ? vt::end_time() : 0);
    }
    if (n > 1)
        eng::label("created anew");
}
} // namespace

eng::property_t eng::property = {
    "C22",
    "at least 4 messages were delivered and a timer or a request was finished",
    12000, 200000, 50, 8, 5, 0, run, nullptr};
