// an actor which does not want to be restarted fails
#include "mini.h"
static int instances = 0;
struct mortal_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        ++instances;
        do_shutdown(r::make_error("x", r::make_error_code(r::error_code_t::request_timeout)));
    }
    bool should_restart() const noexcept override { return false; }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    mini_world().run();
    auto f = [&](r::supervisor_t &s, const r::address_ptr_t &sp) -> r::actor_ptr_t {
        return s.create_actor<mortal_t>().timeout(t).spawner_address(sp).finish();
    };
    sup->spawn(f).restart_policy(r::restart_policy_t::ask_actor).restart_period(pt::seconds{0}).max_attempts(5).spawn();
    mini_world().run();
    CHECK(instances == 1 && mini_world().timers.empty());
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
