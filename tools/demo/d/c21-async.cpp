// extra: _build/lib/librotor_ev.a _build/lib/librotor.a -lev
// shutdown is requested before the loop runs
#include "rotor.hpp"
#include "rotor/ev.hpp"
#include <cstdio>
#include <unistd.h>
namespace r = rotor;
namespace re = rotor::ev;
static int down = 0;
struct sup_t : re::supervisor_ev_t {
    using re::supervisor_ev_t::supervisor_ev_t;
    void shutdown_finish() noexcept override {
        re::supervisor_ev_t::shutdown_finish();
        ++down;
    }
};
int main() {
    auto *loop = ev_loop_new(0);
    r::intrusive_ptr_t<re::system_context_ev_t> ctx(new re::system_context_ev_t());
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<sup_t>().loop(loop).loop_ownership(true).timeout(t).finish();
    sup->start();
    sup->shutdown();
    ev_timer guard;
    ev_timer_init(&guard, [](struct ev_loop *l, ev_timer *, int) { ev_break(l, EVBREAK_ALL); }, 2, 0);
    ev_timer_start(loop, &guard);
    ev_unref(loop);
    ev_run(loop);
    printf("shut down: %d\n", down);
    fflush(stdout);
    _exit(down == 1 ? 0 : 1);
}
