// the server is initialized, but it is not started yet, as its supervisor waits for others; the client asks for an operational one
#include "mini.h"
struct server_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::state_t get_state() { return state; }
};
struct slow_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            res = &p;
            p.acquire(0);
        });
    }
};
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t server;
    server_t *s = nullptr;
    bool linked = false;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            p.link(server, true, [this](const r::extended_error_ptr_t &ee) {
                CHECK(!ee);
                CHECK(s->get_state() == r::state_t::OPERATIONAL);
                linked = true;
            });
        });
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto s1 = sup->create_actor<mini_sup_t>().timeout(t).synchronize_start(true).finish();
    auto server = s1->create_actor<server_t>().timeout(t).finish();
    auto slow = s1->create_actor<slow_t>().timeout(t).finish();
    mini_world().run();
    CHECK(server->get_state() == r::state_t::INITIALIZED);
    auto c = sup->create_actor<client_t>().timeout(t).finish();
    c->server = server->get_address();
    c->s = server.get();
    mini_world().run();
    CHECK(!c->linked);
    slow->res->release(0);
    mini_world().run();
    CHECK(c->linked);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
