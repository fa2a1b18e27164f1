// extra: -pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system
// a forwarded call made from within the strand
#include "rotor.hpp"
#include "rotor/asio.hpp"
#include <cstdio>
namespace r = rotor;
namespace ra = rotor::asio;
namespace asio = boost::asio;
static int inside = 0, calls = 0, nested = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_start() noexcept override {
        ++inside;
        r::actor_base_t::on_start();
        ra::forwarder_t fwd(*this, &actor_t::on_size);
        fwd(std::size_t{1});
        --inside;
    }
    void on_size(std::size_t) noexcept {
        ++calls;
        nested += inside;
    }
};
int main() {
    asio::io_context io;
    ra::system_context_asio_t::ptr_t ctx(new ra::system_context_asio_t(io));
    auto strand = std::make_shared<asio::io_context::strand>(io);
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(strand).timeout(t).finish();
    sup->create_actor<actor_t>().timeout(t).finish();
    sup->start();
    io.run_for(std::chrono::milliseconds(300));
    printf("calls %d, within another handler %d\n", calls, nested);
    fflush(stdout);
    _exit(calls == 1 && nested == 0 ? 0 : 1);
}
