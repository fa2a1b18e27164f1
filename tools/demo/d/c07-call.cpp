// an actor, which is subscribed to an address of another locality, is shutting down, but it still holds a resource
#include "mini.h"
struct payload_t {};
using msg_t = r::message_t<payload_t>;
struct rcpt_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t where;
    r::plugin::resources_plugin_t *res = nullptr;
    int got = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) { res = &p; });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) { p.subscribe_actor(&rcpt_t::on_msg, where); });
    }
    void on_msg(msg_t &) noexcept {
        if (++got == 2)
            res->release(0); // the awaited one
    }
    r::state_t get_state() { return state; }
};
int main() {
    static int l1;
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto s1 = sup->create_actor<mini_sup_t>().timeout(t).locality(&l1).finish();
    auto a = s1->create_actor<rcpt_t>().timeout(t).finish();
    a->where = sup->make_address();
    mini_world().run();
    a->res->acquire(0);
    sup->send<payload_t>(a->where);
    mini_world().run();
    CHECK(a->got == 1);
    a->do_shutdown();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::SHUTTING_DOWN);
    sup->send<payload_t>(a->where);
    mini_world().run();
    CHECK(a->got == 2);
    CHECK(a->get_state() == r::state_t::SHUT_DOWN);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
