// the supervisor is shut down while a restart is pending
#include "mini.h"
struct mortal_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        do_shutdown();
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{1000};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    mini_world().run();
    auto f = [&](r::supervisor_t &s, const r::address_ptr_t &sp) -> r::actor_ptr_t {
        return s.create_actor<mortal_t>().timeout(t).spawner_address(sp).finish();
    };
    sup->spawn(f).restart_policy(r::restart_policy_t::always).restart_period(pt::seconds{500}).spawn();
    mini_world().run();
    sup->do_shutdown();
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
    CHECK(mini_world().timers.empty());
    return 0;
}
