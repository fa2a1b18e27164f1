// the shutdown flag is set later than it is polled while some request is outstanding
#include "mini.h"
#include <atomic>
struct req_t {
    using response_t = int;
    int v;
};
struct cli_t : r::actor_base_t {
    using r::actor_base_t::actor_base_t;
    r::address_ptr_t silent;
    void on_start() noexcept override {
        r::actor_base_t::on_start();
        request<req_t>(silent, 1).send(pt::seconds{1});
    }
};
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    std::atomic_bool flag{false};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).shutdown_flag(flag, pt::milliseconds{100}).finish();
    auto a = sup->create_actor<cli_t>().timeout(t).finish();
    a->silent = sup->make_address();
    mini_world().advance(5000000);
    CHECK(sup->get_state() == r::state_t::OPERATIONAL);
    flag = true;
    mini_world().advance(150000);
    CHECK(sup->get_state() == r::state_t::SHUT_DOWN);
    return 0;
}
