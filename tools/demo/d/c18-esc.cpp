// the failure escalation is switched off explicitly
#include "mini.h"
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<r::actor_base_t>().timeout(t).escalate_failure(false).finish();
    mini_world().run();
    a->do_shutdown(r::make_error("x", r::make_error_code(r::error_code_t::request_timeout)));
    mini_world().run();
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
