// a client links to several servers (when they are operational only); they become operational one by one
#include "mini.h"
struct server_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            res = &p;
            p.acquire(0); // it is not ready yet
        });
    }
};
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    std::vector<r::address_ptr_t> servers;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::link_client_plugin_t>([&](auto &p) {
            for (auto &s : servers)
                p.link(s, true);
        });
    }
    r::state_t get_state() { return state; }
};
static void scenario(bool reverse) {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    // its own supervisor, which does not wait for the others
    auto s1 = sup->create_actor<mini_sup_t>().timeout(t).finish();
    std::vector<r::intrusive_ptr_t<server_t>> servers;
    for (int i = 0; i < 4; ++i)
        servers.emplace_back(s1->create_actor<server_t>().timeout(t).finish());
    auto c = sup->create_actor<client_t>().timeout(t).finish();
    for (auto &s : servers)
        c->servers.push_back(s->get_address());
    mini_world().run();
    if (reverse)
        servers = {servers[3], servers[2], servers[1], servers[0]};
    for (int i = 0; i < 4; ++i) {
        CHECK(c->get_state() == r::state_t::INITIALIZING);
        servers[i]->res->release(0);
        mini_world().run();
    }
    CHECK(c->get_state() == r::state_t::OPERATIONAL);
    sup->do_shutdown();
    mini_world().run();
}
int main() {
    scenario(false);
    scenario(true);
    return 0;
}
