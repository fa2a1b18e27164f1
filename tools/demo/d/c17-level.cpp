// the inspection shows messages of the chosen level
#include "mini.h"
#include <iostream>
#include <sstream>
int main() {
    setenv("ROTOR_INSPECT_DELIVERY", "7", 1);
    std::stringstream out;
    auto old = std::cout.rdbuf(out.rdbuf());
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto t = pt::seconds{100};
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(t).finish();
    auto a = sup->create_actor<r::actor_base_t>().timeout(t).finish();
    mini_world().run();
    sup->do_shutdown();
    mini_world().run();
    std::cout.rdbuf(old);
    auto s = out.str();
    CHECK(s.find("r::shutdown_trigger") != std::string::npos); // level 1
    CHECK(s.find("r::create_actor") != std::string::npos);     // level 7
    CHECK(s.find("r::shutdown_request") == std::string::npos); // level 15
    return 0;
}
