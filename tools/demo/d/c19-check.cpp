// extra: _build/lib/librotor_thread.a _build/lib/librotor.a -pthread
// messages that arrive from another thread while a blocking handler is being run
#include "rotor.hpp"
#include "rotor/thread.hpp"
#include <cstdio>
#include <thread>
#include <vector>
namespace r = rotor;
namespace rth = rotor::thread;
struct block_t {};
struct num_t {
    int n;
};
static std::vector<int> got;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) {
            p.subscribe_actor(&actor_t::on_block)->tag_io();
            p.subscribe_actor(&actor_t::on_num);
        });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        send<block_t>(address);
    }
    void on_block(r::message_t<block_t> &) noexcept {
        auto sup = supervisor;
        std::thread other([&] {
            for (int i = 0; i < 5; ++i)
                sup->enqueue(r::make_message<num_t>(address, num_t{i}));
        });
        other.join();
    }
    void on_num(r::message_t<num_t> &m) noexcept {
        got.push_back(m.payload.n);
        if (got.size() == 5)
            supervisor->do_shutdown();
    }
};
int main() {
    r::intrusive_ptr_t<rth::system_context_thread_t> ctx(new rth::system_context_thread_t());
    auto sup = ctx->create_supervisor<rth::supervisor_thread_t>().timeout(r::pt::seconds{50}).finish();
    sup->create_actor<actor_t>().timeout(r::pt::seconds{50}).finish();
    sup->start();
    ctx->run();
    for (auto i : got)
        printf("%d ", i);
    printf("\n");
    return got == std::vector<int>{0, 1, 2, 3, 4} ? 0 : 1;
}
