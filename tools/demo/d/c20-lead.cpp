// extra: -pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system
// a message from outside for an actor of a nested supervisor, which shares the strand with its parent
#include "rotor.hpp"
#include "rotor/asio.hpp"
#include <cstdio>
namespace r = rotor;
namespace ra = rotor::asio;
namespace asio = boost::asio;
struct num_t {
    int n;
};
static int got = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&actor_t::on_num); });
    }
    void on_num(r::message_t<num_t> &) noexcept { ++got; }
};
int main() {
    asio::io_context io;
    ra::system_context_asio_t::ptr_t ctx(new ra::system_context_asio_t(io));
    auto strand = std::make_shared<asio::io_context::strand>(io);
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(strand).timeout(t).finish();
    auto nested = sup->create_actor<ra::supervisor_asio_t>().strand(strand).timeout(t).finish();
    auto actor = nested->create_actor<actor_t>().timeout(t).finish();
    sup->start();
    io.run_for(std::chrono::milliseconds(100)); // everything is started
    io.restart();
    auto target = actor->get_address();
    target->supervisor.enqueue(r::make_message<num_t>(target, num_t{1}));
    io.run_for(std::chrono::milliseconds(300));
    printf("got %d\n", got);
    auto result = got == 1 ? 0 : 1;
    sup->shutdown();
    io.restart();
    io.run_for(std::chrono::milliseconds(300));
    fflush(stdout);
    _exit(result);
}
