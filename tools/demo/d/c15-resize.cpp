// an actor acquires resource 0, then 1, and releases 1 only
#include "mini.h"
struct holder_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (!res) {
                res = &p;
                p.acquire(0);
            }
        });
    }
    r::state_t get_state() { return state; }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<holder_t>().timeout(t).finish();
    mini_world().run();
    a->res->acquire(1);
    CHECK(a->res->has(1) == 1);
    a->res->release(1);
    mini_world().run();
    CHECK(a->get_state() == r::state_t::INITIALIZING);
    CHECK(a->res->has(0) == 1);
    a->res->release(0);
    mini_world().run();
    CHECK(a->get_state() == r::state_t::OPERATIONAL);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
