// a supervisor with synchronized start gets one more child between its initialization and start
#include "mini.h"
static int started = 0;
struct holder_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::plugin::resources_plugin_t *res = nullptr;
    void configure(r::plugin::plugin_base_t &p) noexcept override {
        r::actor_base_t::configure(p);
        p.with_casted<r::plugin::resources_plugin_t>([&](auto &p) {
            if (!res) {
                res = &p;
                p.acquire(0);
            }
        });
    }
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        ++started;
    }
    r::state_t get_state() { return state; }
};
struct sup_t : mini_sup_t {
    using mini_sup_t::mini_sup_t;
    r::intrusive_ptr_t<holder_t> child;
    void init_finish() noexcept override {
        mini_sup_t::init_finish();
        child = create_actor<holder_t>().timeout(pt::seconds{100}).finish();
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<sup_t>().timeout(t).synchronize_start().finish();
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
    CHECK(started == 0 && sup->child->get_state() == r::state_t::INITIALIZING);
    sup->child->res->release(0);
    mini_world().run();
    CHECK(started == 1 && sup->child->get_state() == r::state_t::OPERATIONAL);
    sup->do_shutdown();
    mini_world().run();
    sup->child.reset();
    return 0;
}
