// a routed message has two recipients in other localities; the next address gets it once, after both
#include "mini.h"
struct payload_t {
    int v;
};
using msg_t = r::message_t<payload_t>;
static std::string log_;
struct rcpt_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t where;
    char name = '?';
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &p) {
            if (where)
                p.subscribe_actor(&rcpt_t::on_msg, where);
            else
                p.subscribe_actor(&rcpt_t::on_msg);
        });
    }
    void on_msg(msg_t &m) noexcept {
        CHECK(m.payload.v == 5);
        log_ += name;
    }
};
int main() {
    static int l1, l2;
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto s1 = sup->create_actor<mini_sup_t>().timeout(t).locality(&l1).finish();
    auto s2 = sup->create_actor<mini_sup_t>().timeout(t).locality(&l2).finish();
    auto addr = sup->make_address();
    auto a = sup->create_actor<rcpt_t>().timeout(t).finish();
    a->name = 'n';
    for (auto &s : {s1, s2}) {
        auto b = s->create_actor<rcpt_t>().timeout(t).finish();
        b->name = 'f';
        b->where = addr;
    }
    mini_world().run();
    sup->route<payload_t>(addr, a->get_address(), 5);
    mini_world().run();
    printf("%s\n", log_.c_str());
    CHECK(log_ == "ffn");
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
