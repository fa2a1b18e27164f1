// an actor which takes its supervisor down fails; the supervisor has to know the reason
#include "mini.h"
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<r::actor_base_t>().timeout(t).autoshutdown_supervisor().finish();
    mini_world().run();
    auto ec = r::make_error_code(r::error_code_t::discovery_failed);
    a->do_shutdown(r::make_error("something", ec));
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
    CHECK(sup->get_shutdown_reason());
    CHECK(sup->get_shutdown_reason()->root()->ec == ec);
    return 0;
}
