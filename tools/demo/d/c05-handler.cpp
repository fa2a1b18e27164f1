// an actor has two handlers of the same message at the same address, one of them is unsubscribed
#include "mini.h"
struct payload_t {};
using msg_t = r::message_t<payload_t>;
struct a_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::subscription_info_ptr_t i1, i2, i3;
    int n1 = 0, n2 = 0, n3 = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            i1 = p.subscribe_actor(&a_t::on_1);
            i2 = p.subscribe_actor(&a_t::on_2);
            i3 = p.subscribe_actor(&a_t::on_3);
        });
    }
    void on_1(msg_t &) noexcept { ++n1; }
    void on_2(msg_t &) noexcept { ++n2; }
    void on_3(msg_t &) noexcept { ++n3; }
    void drop() { unsubscribe(&a_t::on_2); }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<a_t>().timeout(t).finish();
    mini_world().run();
    a->drop();
    mini_world().run();
    sup->send<payload_t>(a->get_address());
    mini_world().run();
    CHECK(a->n1 == 1);
    CHECK(a->n2 == 0);
    CHECK(a->n3 == 1);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
