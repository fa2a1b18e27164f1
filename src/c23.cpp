// C23: tagged handlers and interceptors
#include "subnet.h"

static void run(sim::src_t &src) { subnet::run(src, 1, true); }

eng::property_t eng::property = {
    "C23",
    "networks of subscribers as for C07, in 1-3 localities with nested supervisors; subscriptions are tagged (and re-tagged) at any "
    "moment, interceptors continue 0 to 3 times; non-trivial: at least one delivery or offer was required and 2 crossed localities",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
