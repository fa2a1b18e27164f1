// C04: shutdown always completes, children first, nothing is left behind
#include "tree.h"
using namespace tree;

namespace {
int late_alive = 0;
struct late_t {
    late_t() { ++late_alive; }
    ~late_t() { --late_alive; }
};

void run(src_t &src) {
    world_t w(src);
    sys_t sys(src);
    S = &sys;
    chaos_options(sys);
    sys.check_released = true;
    w.on_hook = [&](mon_t &m, hook_t h) {
        if (h == H_SHUTDOWN_FINISH)
            for (auto c : m.children)
                EXPECT(w.mon(c).down_done, "children-first", "%s finished its shutdown before its child %s", m.name.c_str(),
                       w.mon(c).name.c_str());
    };
    auto r = chaos(sys);
    for (auto &m : w.mons)
        EXPECT(m->down_done, "hang", "%s does not complete its shutdown (phase %d)", m->name.c_str(), m->phase());
    if (w.mons.size() >= 3 && (r.in_flight || r.busy) && r.alive >= 3)
        eng::nontrivial();
    // messages of other threads which come too late
    late_alive = 0;
    if (src.chance(20)) {
        int n = 0;
        for (auto &s : w.keep)
            for (auto k = src.draw(4); k; --k, ++n)
                s->push_inbound(r::make_message<late_t>(s->get_address()));
        EXPECT(late_alive == n, "late", "%d late messages alive, %d were sent", late_alive, n);
        if (n)
            eng::label("messages after the shutdown");
    }
    check_nothing_left("leftover");
    EXPECT(!late_alive, "leftover", "%d messages are not released", late_alive);
    S = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C04",
    "a random tree (1-2 roots, nested supervisors in the same or in own localities) with init delays and failures, held "
    "resources, messages, requests, timers and subscriptions; the shutdown of a subtree and then of the roots is requested at "
    "a random moment; non-trivial: at least 3 actors were alive and messages were in flight or an initialization was running",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
