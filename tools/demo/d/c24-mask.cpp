// a plugin is configured in several phases
#include "mini.h"
struct act_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    int both = 0, main_only = 0, pre_only = 0;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        using phase_t = r::plugin::config_phase_t;
        auto all = (phase_t)((int)phase_t::PREINIT | (int)phase_t::INITIALIZING);
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { ++both; }, all);
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { ++main_only; });
        p.with_casted<r::plugin::starter_plugin_t>([&](auto &) { ++pre_only; }, phase_t::PREINIT);
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<act_t>().timeout(t).finish();
    mini_world().run();
    CHECK(a->main_only == 1);
    CHECK(a->both == a->main_only + a->pre_only);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
