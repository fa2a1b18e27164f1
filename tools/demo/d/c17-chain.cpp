// the root of a long chain of errors
#include "mini.h"
int main() {
    auto root = r::make_error("c0", r::make_error_code(r::error_code_t::request_timeout));
    auto e = root;
    for (int i = 1; i < 6; ++i) {
        e = r::make_error("c" + std::to_string(i), r::make_error_code(r::error_code_t::failure_escalation), e);
        CHECK(e->root() == root);
    }
    return 0;
}
