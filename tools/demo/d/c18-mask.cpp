// the init timeout is not given
#include "mini.h"
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    mini_world().run();
    auto a = sup->create_actor<r::actor_base_t>().shutdown_timeout(t).finish();
    CHECK(!a && ctx->errors == 1);
    auto b = sup->create_actor<r::actor_base_t>().init_timeout(t).finish();
    CHECK(!b && ctx->errors == 2);
    mini_world().run();
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
