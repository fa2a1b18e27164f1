#define VARIANT 2
#include "mini.h"
// the first instance of a spawned actor works and goes down while the supervisor is still initializing; the second one is
// slow (VARIANT 2) or goes down before it is initialized (VARIANT 3)
struct holder_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    bool hold = true;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (!res) {
                res = &p;
                p.acquire(0);
            }
        });
    }
    r::state_t get_state() { return state; }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto slow = sup->create_actor<holder_t>().timeout(t).finish();
    std::vector<r::intrusive_ptr_t<holder_t>> ins;
    auto f = [&](r::supervisor_t &s, const r::address_ptr_t &sp) -> r::actor_ptr_t {
        auto a = s.create_actor<holder_t>().timeout(t).spawner_address(sp).finish();
        ins.push_back(a);
        return a;
    };
    sup->spawn(f).restart_policy(r::restart_policy_t::always).restart_period(pt::seconds{0}).max_attempts(2).spawn();
    mini_world().run();
    CHECK(ins.size() == 1);
    ins[0]->res->release(0);
    mini_world().run();
    CHECK(ins[0]->get_state() == r::state_t::OPERATIONAL);
    ins[0]->do_shutdown();
    mini_world().run();
    CHECK(ins.size() == 2 && ins[1]->get_state() == r::state_t::INITIALIZING);
#if VARIANT == 2
    slow->res->release(0);
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::INITIALIZING); // the second instance is not initialized yet
    ins[1]->res->release(0);
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
#else
    ins[1]->do_shutdown();
    mini_world().run();
    ins[1]->res->release(0);
    mini_world().run();
    slow->res->release(0);
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
#endif
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
