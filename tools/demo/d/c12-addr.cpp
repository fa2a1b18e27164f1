// an actor registers two names with different addresses
#include "mini.h"
struct a_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t x, y;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            p.register_name("first", x);
            p.register_name("second", y);
        });
    }
};
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t first, second;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::registry_plugin_t>([&](auto &p) {
            p.discover_name("first", first);
            p.discover_name("second", second);
        });
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).create_registry(true).finish();
    auto a = sup->create_actor<a_t>().timeout(t).finish();
    a->x = a->get_address();
    a->y = sup->make_address();
    mini_world().run();
    auto c = sup->create_actor<client_t>().timeout(t).finish();
    mini_world().run();
    CHECK(c->first == a->x);
    CHECK(c->second == a->y);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
