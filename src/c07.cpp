// C07: subscriptions across localities
#include "subnet.h"

static void run(sim::src_t &src) { subnet::run(src, 2, false); }

eng::property_t eng::property = {
    "C07",
    "2-9 actors and supervisors in 2-3 localities subscribe handlers of two message types to main and additional addresses of "
    "any locality, unsubscribe (also before the confirmation), send and shut down, from outside and inside handlers, with random "
    "interleaving of the localities; non-trivial: at least 2 deliveries crossed localities and at least one delivery was required",
    20000, 800000, 40, 8, 20, 0, run, nullptr};
