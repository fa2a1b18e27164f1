// an actor which dies immediately is restarted each period, not at once
#include "mini.h"
static int instances = 0;
struct mortal_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        ++instances;
        do_shutdown();
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    mini_world().run();
    auto f = [&](r::supervisor_t &s, const r::address_ptr_t &sp) -> r::actor_ptr_t {
        return s.create_actor<mortal_t>().timeout(t).spawner_address(sp).finish();
    };
    sup->spawn(f).restart_policy(r::restart_policy_t::always).restart_period(pt::milliseconds{2000}).max_attempts(5).spawn();
    mini_world().run();
    CHECK(instances == 1);
    for (int i = 2; i <= 4; ++i) {
        usleep(2010 * 1000);
        mini_world().fire();
        mini_world().run();
        CHECK(instances == i);
    }
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
