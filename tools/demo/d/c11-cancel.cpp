// two actors of different localities wait for the same name with equal request ids, one of them cancels
#include "mini.h"
struct client_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    int found = 0, cancelled = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([](auto &p) { p.subscribe_actor(&client_t::on_future); });
    }
    void on_future(r::message::discovery_future_t &m) noexcept {
        if (m.payload.ee)
            ++cancelled;
        else
            ++found;
    }
    r::request_id_t promise(const r::address_ptr_t &reg, const std::string &name) {
        auto id = request<r::payload::discovery_promise_t>(reg, name).send(pt::seconds{1000});
        mini_world().run();
        return id;
    }
    void cancel(const r::address_ptr_t &reg, r::request_id_t id, const r::address_ptr_t &origin) {
        send<r::message::discovery_cancel_t::payload_t>(reg, id, origin);
        mini_world().run();
    }
    void reg_name(const r::address_ptr_t &reg, const std::string &name) {
        request<r::payload::registration_request_t>(reg, name, address).send(pt::seconds{1000});
        mini_world().run();
    }
};
int main() {
    static int la, lb;
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).create_registry(true).finish();
    auto sa = sup->create_actor<mini_sup_t>().timeout(t).locality(&la).finish();
    auto sb = sup->create_actor<mini_sup_t>().timeout(t).locality(&lb).finish();
    auto a = sa->create_actor<client_t>().timeout(t).finish();
    auto b = sb->create_actor<client_t>().timeout(t).finish();
    mini_world().run();
    auto reg = sup->get_registry_address();
    r::request_id_t ia = a->promise(reg, "srv-a"), ib = b->promise(reg, "srv-b");
    bool a_last = false;
    while (ia != ib) {
        a_last = ia < ib;
        if (a_last)
            ia = a->promise(reg, "srv-a");
        else
            ib = b->promise(reg, "srv-b");
    }
    // the one which asked earlier cancels
    auto first = a_last ? b : a, last = a_last ? a : b;
    first->cancel(reg, ia, first->get_address());
    CHECK(first->cancelled == 1 && last->cancelled == 0);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
