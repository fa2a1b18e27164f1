// an actor holds resources 0 and 1 during its shutdown and releases 1 first
#include "mini.h"
struct holder_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { res = &p; });
    }
    r::state_t get_state() { return state; }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<holder_t>().timeout(t).finish();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::OPERATIONAL);
    a->res->acquire(0);
    a->res->acquire(1);
    a->do_shutdown();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::SHUTTING_DOWN);
    a->res->release(1);
    mini_world().run();
    CHECK(a->get_state() == r::state_t::SHUTTING_DOWN);
    a->res->release(0);
    mini_world().run();
    CHECK(a->get_state() == r::state_t::SHUT_DOWN);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
