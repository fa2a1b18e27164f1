// an actor whose initialization is timed out, while the policy of the supervisor is to go on
#include "mini.h"
struct slow_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::state_t get_state() { return state; }
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &s) { s.acquire(); });
    }
    void shutdown_start() noexcept override {
        r::actor_base_t::shutdown_start();
        resources->release();
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).policy(r::supervisor_policy_t::shutdown_failed).finish();
    mini_world().run();
    auto a = sup->create_actor<slow_t>().init_timeout(pt::seconds{1}).shutdown_timeout(t).finish();
    mini_world().advance(2000000);
    CHECK(a->get_state() == r::state_t::SHUT_DOWN);
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
    auto reason = a->get_shutdown_reason();
    CHECK(reason);
    printf("%s\n", reason->message().c_str());
    CHECK(reason->root()->ec == r::make_error_code(r::error_code_t::request_timeout));
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
