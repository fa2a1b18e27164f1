// the shutdown flag has to be polled as often as it is configured
#include "mini.h"
#include <atomic>
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    std::atomic_bool flag{false};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).shutdown_flag(flag, pt::milliseconds{7}).finish();
    mini_world().advance(1000);
    flag = true;
    mini_world().advance(8000);
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
    return 0;
}
