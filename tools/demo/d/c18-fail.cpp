// an actor that is stopped before it is initialized and does not complete its shutdown in time
#include "mini.h"
struct slow_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::state_t get_state() { return state; }
    r::plugin::resources_plugin_t *res() { return resources; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &s) { s.acquire(); });
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).policy(r::supervisor_policy_t::shutdown_failed).finish();
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
    auto a = sup->create_actor<slow_t>().init_timeout(t).shutdown_timeout(pt::seconds{1}).finish();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::INITIALIZING);
    a->do_shutdown();
    mini_world().advance(500000);
    CHECK(a->get_state() == r::state_t::SHUTTING_DOWN);
    CHECK(ctx->errors == 0);
    mini_world().advance(1000000);
    CHECK(ctx->errors == 1); // the shutdown timeout is reported
    a->res()->release();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::SHUT_DOWN);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
