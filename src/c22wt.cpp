// C22: the wx backend, real threads under TSAN
#include "race.h"
#include "rotor/wx.hpp"
#include <wx/app.h>
#include <wx/apptrait.h>
#include <wx/evtloop.h>
#include <wx/init.h>

namespace rw = rotor::wx;
using namespace race;

struct app_t : wxAppConsole {};
wxIMPLEMENT_APP_NO_MAIN(app_t);

namespace {
void run(src_t &src) {
    static wxInitializer init;
    world_t w;
    begin();
    std::vector<std::unique_ptr<wxEvtHandler>> handlers;
    std::vector<r::intrusive_ptr_t<rw::system_context_wx_t>> ctxs;
    std::unique_ptr<wxEventLoopBase> loop(wxTheApp->GetTraits()->CreateEventLoop());
    auto new_handler = [&] {
        handlers.push_back(std::make_unique<wxEvtHandler>());
        return handlers.back().get();
    };
    int n_roots = (int)src.weighted({3, 1}) + 1;
    while (n_roots--) {
        ctxs.emplace_back(new rw::system_context_wx_t(nullptr));
        auto s = ctxs.back()->create_supervisor<rw::supervisor_wx_t>().handler(new_handler()).timeout(r::pt::seconds{300}).finish();
        w.roots.push_back(s);
        w.sups.push_back(s);
        auto k = (int)src.range(1, 3);
        while (k--)
            add_actor(w, *s, true);
        auto nested = (int)src.draw(3);
        while (nested--) {
            auto c = s->create_actor<rw::supervisor_wx_t>().handler(src.chance(50) ? handlers.back().get() : new_handler()).timeout(r::pt::seconds{300}).finish();
            w.sups.push_back(c);
            auto k = (int)src.range(1, 2);
            while (k--)
                add_actor(w, *c, true);
            if (src.chance(50))
                s = c;
        }
    }
    draw(w, src);
    for (auto &s : w.roots)
        s->start();
    std::thread th([&] {
        control(w, [](r::supervisor_t &s) { s.shutdown(); });
        handlers[0]->CallAfter([&] { loop->ScheduleExit(); });
    });
    loop->Run();
    th.join();
    end();
    judge(w);
    w.roots.clear();
    while (!w.sups.empty())
        w.sups.pop_back();
    ctxs.clear();
    handlers.clear();
}
} // namespace

eng::property_t eng::property = {"C22", "at least 12 handlers have been run", 1500, 30000, 10, 6, 1000, 60, run, nullptr};
