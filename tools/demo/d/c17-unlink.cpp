// the text of a failed unlink response tells the failure
#include "mini.h"
int main() {
    mini_ctx_ptr_t ctx(new mini_ctx_t());
    auto sup = ctx->create_supervisor<mini_sup_t>().timeout(pt::seconds{100}).finish();
    mini_world().run();
    auto addr = sup->get_address();
    using traits_t = r::request_traits_t<r::payload::unlink_request_t>;
    typename traits_t::request::message_ptr_t req(new traits_t::request::message_t(addr, r::request_id_t{1}, addr, addr, addr));
    auto ee = r::make_error("some context", r::make_error_code(r::error_code_t::request_timeout));
    auto res = traits_t::make_error_response(addr, *req, ee);
    auto text = ctx->get_stringifier().stringify(*res);
    printf("%s\n", text.c_str());
    CHECK(text.find("some context request timeout") != std::string::npos);
    sup->do_shutdown();
    mini_world().run();
    return 0;
}
