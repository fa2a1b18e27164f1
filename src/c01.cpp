// C01: every actor walks its lifecycle in order, each phase at most once
#include "tree.h"
using namespace tree;

namespace {
void run(src_t &src) {
    world_t w(src);
    sys_t sys(src);
    S = &sys;
    chaos_options(sys);
    std::vector<int> state; // last state seen, by monitor id
    uint64_t starts = 0, downs = 0, aborted = 0;
    auto observe = [&] {
        for (auto *n : sys.nodes) {
            if (!n)
                continue;
            auto id = n->mo().id;
            if ((int)state.size() <= id)
                state.resize(id + 1, 0);
            auto now = (int)n->actor().access<sim::to::state>();
            EXPECT(now >= state[id], "backwards", "%s goes from phase %d back to phase %d", n->mo().name.c_str(), state[id], now);
            state[id] = now;
        }
    };
    w.on_hook = [&](mon_t &m, hook_t h) {
        auto *nm = m.name.c_str();
        if (h != H_CTOR)
            observe();
        EXPECT(m.n[h] == 1, "twice", "%s: %s runs %llu times", nm, hook_name(h), (unsigned long long)m.n[h]);
        auto had = [&](hook_t x) { return m.n[x] > 0; };
        switch (h) {
        case H_INIT_START:
            EXPECT(!had(H_SHUTDOWN_START) && !had(H_INIT_FINISH), "order", "%s: init_start too late", nm);
            break;
        case H_INIT_FINISH:
            EXPECT(had(H_INIT_START), "order", "%s: init_finish before init_start", nm);
            EXPECT(!had(H_SHUTDOWN_START), "order", "%s: init_finish after its shutdown began", nm);
            break;
        case H_ON_START:
            EXPECT(had(H_INIT_FINISH), "order", "%s is started before it is initialized", nm);
            EXPECT(!had(H_SHUTDOWN_START), "order", "%s is started after its shutdown began", nm);
            ++starts;
            break;
        case H_SHUTDOWN_START:
            EXPECT(had(H_INIT_START), "order", "%s: shutdown_start before init_start", nm);
            EXPECT(!had(H_SHUTDOWN_FINISH), "order", "%s: shutdown_start after shutdown_finish", nm);
            aborted += !had(H_ON_START);
            break;
        case H_SHUTDOWN_FINISH:
            EXPECT(had(H_SHUTDOWN_START), "order", "%s: shutdown_finish without shutdown_start", nm);
            ++downs;
            break;
        case H_DTOR:
            EXPECT(had(H_SHUTDOWN_FINISH), "order", "%s is destroyed before it is shut down", nm);
            break;
        default:
            break;
        }
    };
    w.after_hook = [&](mon_t &, hook_t) { observe(); };
    auto r = chaos(sys);
    observe();
    for (auto &m : w.mons)
        EXPECT(m->down() || m->stopping() || m->operational(), "stuck", "%s is in phase %d at the end", m->name.c_str(), m->phase());
    w.keep.clear();
    w.ctxs.clear();
    if (aborted)
        eng::label("shutdown before the start");
    eng::count("starts", starts);
    eng::count("shutdowns", downs);
    if (starts >= 2 && downs >= 3 && (r.in_flight || r.busy || aborted))
        eng::nontrivial();
    S = nullptr;
}
} // namespace

eng::property_t eng::property = {
    "C01",
    "a random life of a random tree (failures, timeouts, escalation flags, links, traffic, late children, repeated shutdown "
    "requests), every lifecycle hook, phase change and handler is watched; non-trivial: at least 2 actors were started, 3 were "
    "shut down, and a shutdown came with messages in flight or before the start",
    20000, 600000, 40, 8, 20, 0, run, nullptr};
