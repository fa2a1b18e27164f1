// messages, which came from other threads after the (child) supervisor was shut down, are released with it
#include "mini.h"
static int alive = 0;
struct payload_t {
    payload_t() { ++alive; }
    payload_t(const payload_t &) { ++alive; }
    ~payload_t() { --alive; }
};
struct sup_t : mini_sup_t {
    using mini_sup_t::mini_sup_t;
    // what thread safe backends do
    void enqueue(r::message_ptr_t m) noexcept override {
        if (state == r::state_t::SHUT_DOWN)
            inbound_queue.push(m.detach());
        else
            mini_sup_t::enqueue(std::move(m));
    }
};
int main() {
    static int lb;
    {
        mini_ctx_ptr_t ctx(new mini_ctx_t());
        auto t = pt::seconds{100};
        auto sup = ctx->create_supervisor<sup_t>().timeout(t).finish();
        auto child = sup->create_actor<sup_t>().timeout(t).locality(&lb).finish();
        mini_world().run();
        sup->do_shutdown();
        mini_world().run();
        CHECK(child->get_state() == r::state_t::SHUT_DOWN);
        for (int i = 0; i < 3; ++i)
            child->enqueue(r::make_message<payload_t>(child->get_address()));
        CHECK(alive == 3);
    }
    CHECK(alive == 0);
    return 0;
}
