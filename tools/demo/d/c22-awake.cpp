// extra: -pthread _build/lib/librotor_fltk.a _build/lib/librotor.a -lfltk
// a timer callback of an actor sends a message
#include "rotor.hpp"
#include "rotor/fltk.hpp"
#include <FL/Fl.H>
#include <chrono>
#include <cstdio>
#include <unistd.h>
namespace r = rotor;
namespace rf = rotor::fltk;
struct num_t {};
static int fired = 0, got = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&actor_t::on_num); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        start_timer(r::pt::milliseconds{20}, *this, &actor_t::on_timer);
    }
    void on_timer(r::request_id_t, bool) noexcept {
        ++fired;
        send<num_t>(address);
    }
    void on_num(r::message_t<num_t> &) noexcept { ++got; }
};
int main() {
    Fl::lock();
    r::intrusive_ptr_t<rf::system_context_fltk_t> ctx(new rf::system_context_fltk_t());
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<rf::supervisor_fltk_t>().timeout(t).finish();
    sup->create_actor<actor_t>().timeout(t).finish();
    sup->start();
    auto begin = std::chrono::steady_clock::now();
    double elapsed = 0;
    while (!got && elapsed < 30) {
        sup->do_process();
        if (!got)
            Fl::wait(12);
        elapsed = std::chrono::duration<double>(std::chrono::steady_clock::now() - begin).count();
    }
    printf("%.1f s\n", elapsed);
    printf("fired %d, got %d\n", fired, got);
    fflush(stdout);
    _exit(fired == 1 && got == 1 && elapsed < 10 ? 0 : 1);
}
