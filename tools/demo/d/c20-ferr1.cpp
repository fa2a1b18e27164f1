// extra: -pthread _build/lib/librotor_asio.a _build/lib/librotor.a -lboost_system
// the error handler of a forwarded call with a result sends a message
#include "rotor.hpp"
#include "rotor/asio.hpp"
#include <cstdio>
namespace r = rotor;
namespace ra = rotor::asio;
namespace asio = boost::asio;
namespace sys = boost::system;
struct num_t {};
static int got = 0, failed = 0, good = 0;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&actor_t::on_num); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        ra::forwarder_t fwd(*this, &actor_t::on_read, &actor_t::on_error);
        auto &io = static_cast<ra::supervisor_asio_t *>(supervisor)->get_strand().context();
        asio::post(io, [fwd = std::move(fwd)]() mutable { fwd(asio::error::make_error_code(asio::error::eof), std::size_t{0}); });
    }
    void on_read(std::size_t) noexcept { ++good; }
    void on_error(const sys::error_code &) noexcept {
        ++failed;
        send<num_t>(address);
    }
    void on_num(r::message_t<num_t> &) noexcept { ++got; }
};
int main() {
    asio::io_context io;
    ra::system_context_asio_t::ptr_t ctx(new ra::system_context_asio_t(io));
    auto strand = std::make_shared<asio::io_context::strand>(io);
    auto t = r::pt::seconds{50};
    auto sup = ctx->create_supervisor<ra::supervisor_asio_t>().strand(strand).timeout(t).finish();
    sup->create_actor<actor_t>().timeout(t).finish();
    sup->start();
    io.run_for(std::chrono::milliseconds(300));
    printf("good %d, failed %d, got %d\n", good, failed, got);
    auto result = good == 0 && failed == 1 && got == 1 ? 0 : 1;
    sup->shutdown();
    io.restart();
    io.run_for(std::chrono::milliseconds(300));
    fflush(stdout);
    _exit(result);
}
