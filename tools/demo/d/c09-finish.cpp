// an actor is shut down with several timers outstanding
#include "mini.h"
struct timed_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    int cancelled = 0;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        for (int i = 1; i <= 3; ++i)
            start_timer(pt::seconds{i}, *this, &timed_t::on_timer);
    }
    void on_timer(r::request_id_t, bool c) noexcept {
        if (c)
            ++cancelled;
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<timed_t>().timeout(t).finish();
    mini_world().run();
    CHECK(mini_world().timers.size() == 3);
    a->do_shutdown();
    mini_world().run();
    CHECK(a->cancelled == 3 && mini_world().timers.empty());
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
