// a reply with an error between two messages of the responder
#include "mini.h"
struct req_t {
    using response_t = int;
    int v;
};
struct note_t {
    int v;
};
using req_m = r::request_traits_t<req_t>::request::message_t;
using res_m = r::request_traits_t<req_t>::response::message_t;
using note_m = r::message_t<note_t>;
struct srv_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t client;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) { s.subscribe_actor(&srv_t::on_req); });
    }
    void on_req(req_m &m) noexcept {
        send<note_t>(client, 1);
        reply_with_error(m, make_error(r::make_error_code(r::error_code_t::unknown_service)));
        send<note_t>(client, 3);
    }
};
struct cli_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    std::vector<int> got;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
            s.subscribe_actor(&cli_t::on_res);
            s.subscribe_actor(&cli_t::on_note);
        });
    }
    void on_res(res_m &m) noexcept { got.push_back(m.payload.ee ? 2 : 0); }
    void on_note(note_m &m) noexcept { got.push_back(m.payload.v); }
    void ask(const r::address_ptr_t &a) { request<req_t>(a, 1).send(pt::seconds{1}); }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto s = sup->create_actor<srv_t>().timeout(t).finish();
    auto c = sup->create_actor<cli_t>().timeout(t).finish();
    s->client = c->get_address();
    mini_world().run();
    c->ask(s->get_address());
    mini_world().run();
    CHECK((c->got == std::vector<int>{1, 2, 3}));
    sup->do_shutdown();
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
    return 0;
}
