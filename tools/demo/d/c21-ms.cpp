// extra: _build/lib/librotor_ev.a _build/lib/librotor.a -lev
// a timer with an interval, which is not a number of milliseconds
#include "rotor.hpp"
#include "rotor/ev.hpp"
#include <cstdio>
namespace r = rotor;
namespace re = rotor::ev;
static int early = 0, fired = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    struct ev_loop *loop = nullptr;
    ev_tstamp at = 0;
    void again() noexcept {
        at = ev_now(loop);
        start_timer(r::pt::microseconds{5900}, *this, &actor_t::on_timer);
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        again();
    }
    void on_timer(r::request_id_t, bool cancelled) noexcept {
        if (cancelled)
            return;
        early += ev_now(loop) - at < 0.0057;
        if (++fired < 20)
            again();
        else
            supervisor->shutdown();
    }
};
int main() {
    auto *loop = ev_loop_new(0);
    r::intrusive_ptr_t<re::system_context_ev_t> ctx(new re::system_context_ev_t());
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<re::supervisor_ev_t>().loop(loop).loop_ownership(true).timeout(t).finish();
    sup->create_actor<actor_t>().timeout(t).finish()->loop = loop;
    sup->start();
    ev_run(loop);
    printf("fired %d, early %d\n", fired, early);
    // the clock might have been adjusted, once or twice
    return fired == 20 && early <= 5 ? 0 : 1;
}
