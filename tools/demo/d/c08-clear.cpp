// an actor is shut down when one of its requests is already timed out, and another is outstanding
#include "mini.h"
struct res_t : r::arc_base_t<res_t> {};
struct req_t {
    using response_t = int;
    int v;
};
using request_t = r::request_traits_t<req_t>::request::message_t;
using response_t = r::request_traits_t<req_t>::response::message_t;
struct cli_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t silent;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) { p.subscribe_actor(&cli_t::on_res); });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        for (int i = 1; i <= 2; ++i)
            request<req_t>(silent, i).send(pt::seconds{i * 10});
    }
    void on_res(response_t &) noexcept {}
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<cli_t>().timeout(t).finish();
    a->silent = sup->make_address();
    mini_world().run();
    CHECK(mini_world().timers.size() == 2);
    mini_world().advance(11000000);
    CHECK(mini_world().timers.size() == 1);
    a->do_shutdown();
    mini_world().run();
    CHECK(mini_world().timers.empty());
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
