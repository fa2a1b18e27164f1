// the subscriptions of the starter are confirmed before the actor is initialized
#include "mini.h"
struct note_t {};
struct note2_t {};
using note_m = r::message_t<note_t>;
using note2_m = r::message_t<note2_t>;
static int seen = 0;
struct probe_t : r::plugin::plugin_base_t {
    static const std::type_index class_identity;
    const std::type_index &identity() const noexcept override { return class_identity; }
    void activate(r::actor_base_t *a) noexcept override {
        r::plugin::plugin_base_t::activate(a);
        reaction_on(reaction_t::SUBSCRIPTION);
    }
    bool handle_subscription(r::message::subscription_t &m) noexcept override {
        if (m.payload.point.handler->message_type() == note_m::message_type || m.payload.point.handler->message_type() == note2_m::message_type)
            ++seen;
        return r::plugin::plugin_base_t::handle_subscription(m);
    }
};
const std::type_index probe_t::class_identity = typeid(probe_t);
struct act_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::state_t get_state() { return state; }
    using plugins_list_t = std::tuple<r::plugin::address_maker_plugin_t, r::plugin::lifetime_plugin_t, r::plugin::init_shutdown_plugin_t,
                                      r::plugin::link_server_plugin_t, r::plugin::link_client_plugin_t, r::plugin::registry_plugin_t,
                                      r::plugin::resources_plugin_t, r::plugin::starter_plugin_t, probe_t>;
    int at_init = -1;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &s) {
            s.subscribe_actor(&act_t::on_note);
            s.subscribe_actor(&act_t::on_note2);
        });
    }
    void init_finish() noexcept override {
        at_init = seen;
        r::actor_base_t::init_finish();
    }
    void on_note(note_m &) noexcept {}
    void on_note2(note2_m &) noexcept {}
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<act_t>().timeout(t).finish();
    mini_world().run();
    CHECK(a->get_state() == r::state_t::OPERATIONAL);
    CHECK(seen == 2);
    CHECK(a->at_init == 2);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
