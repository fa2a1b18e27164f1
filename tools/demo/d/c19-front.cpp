// extra: _build/lib/librotor_thread.a _build/lib/librotor.a -pthread
// three timers of an actor, started in other order than that of their deadlines
#include "rotor.hpp"
#include "rotor/thread.hpp"
#include <cstdio>
#include <vector>
namespace r = rotor;
namespace rth = rotor::thread;
static std::vector<int> fired;
struct actor_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::request_id_t ids[3];
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        static const int ms[] = {20, 150, 60};
        for (int i = 0; i < 3; ++i)
            ids[i] = start_timer(r::pt::milliseconds{ms[i]}, *this, &actor_t::on_timer);
    }
    void on_timer(r::request_id_t id, bool cancelled) noexcept {
        for (int i = 0; i < 3; ++i)
            if (ids[i] == id && !cancelled)
                fired.push_back(i);
        if (fired.size() == 3)
            supervisor->do_shutdown();
    }
};
int main() {
    r::intrusive_ptr_t<rth::system_context_thread_t> ctx(new rth::system_context_thread_t());
    auto sup = ctx->create_supervisor<rth::supervisor_thread_t>().timeout(r::pt::seconds{50}).finish();
    sup->create_actor<actor_t>().timeout(r::pt::seconds{50}).finish();
    sup->start();
    ctx->run();
    for (auto i : fired)
        printf("%d ", i);
    printf("\n");
    return fired == std::vector<int>{0, 2, 1} ? 0 : 1;
}
