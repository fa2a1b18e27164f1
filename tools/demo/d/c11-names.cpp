// X registers srv-a and srv-b, withdraws srv-a; then Y takes srv-a; then all names of X are withdrawn: srv-a has to be known still
#include "mini.h"
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t own;
    int found = 0, failed = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([this](auto &p) {
            own = create_address();
            p.subscribe_actor(&client_t::on_reg, own);
            p.subscribe_actor(&client_t::on_found, own);
        });
    }
    void on_reg(r::message::registration_response_t &m) noexcept {
        if (m.payload.ee)
            ++failed;
    }
    void on_found(r::message::discovery_response_t &m) noexcept {
        if (m.payload.ee)
            ++failed;
        else
            ++found;
    }
    template <typename P, typename... A> void req(const r::address_ptr_t &to, A &&...a) {
        request_via<P>(to, own, std::forward<A>(a)...).send(pt::seconds{10});
        mini_world().run();
    }
    template <typename P, typename... A> void snd(const r::address_ptr_t &to, A &&...a) {
        send<P>(to, std::forward<A>(a)...);
        mini_world().run();
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).create_registry(true).finish();
    auto c = sup->create_actor<client_t>().timeout(t).finish();
    mini_world().run();
    auto reg = sup->get_registry_address();
    auto x = sup->make_address(), y = sup->make_address();
    c->req<r::payload::registration_request_t>(reg, "srv-a", x);
    c->req<r::payload::registration_request_t>(reg, "srv-b", x);
    c->snd<r::payload::deregistration_service_t>(reg, "srv-a");
    c->req<r::payload::registration_request_t>(reg, "srv-a", y);
    CHECK(c->failed == 0);
    c->snd<r::payload::deregistration_notify_t>(reg, x);
    c->req<r::payload::discovery_request_t>(reg, "srv-a");
    CHECK(c->found == 1 && c->failed == 0);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
