// a tagged subscription to an address of another supervisor: own supervisor of the subscriber intercepts
#include "mini.h"
struct payload_t {};
using msg_t = r::message_t<payload_t>;
static int got = 0;
struct sup_t : mini_sup_t {
    using mini_sup_t::mini_sup_t;
    int offered = 0;
    void intercept(r::message_ptr_t &, const void *tag, const r::continuation_t &c) noexcept override {
        if (tag == r::tags::io)
            ++offered;
        c();
    }
};
struct rcpt_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t where;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) { p.subscribe_actor(&rcpt_t::on_msg, where)->tag_io(); });
    }
    void on_msg(msg_t &) noexcept { ++got; }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<sup_t>().timeout(t).finish();
    auto child = sup->create_actor<sup_t>().timeout(t).finish();
    auto a = child->create_actor<rcpt_t>().timeout(t).finish();
    a->where = sup->make_address();
    mini_world().run();
    sup->send<payload_t>(a->where);
    mini_world().run();
    printf("offered to the own one %d, to the owner %d, got %d\n", child->offered, sup->offered, got);
    CHECK(child->offered == 1 && sup->offered == 0 && got == 1);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
