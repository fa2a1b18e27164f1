"""Which programs decide which property, and what is trusted."""
SIM = ["the simulated event loop (src/sim.*) drives supervisors as a backend does: inbound messages are put in FIFO order, "
       "then the locality's queue is processed; timers fire at or after their deadline in the locality's thread",
       "one process, localities are interleaved at message-batch granularity (the library's own thread-safety is the subject of C19-C22)",
       "clang 18 -O1, ASAN + UBSAN, assertions enabled"]


def sim(p, note, extra=(), budget=(60, 780)):
    return {"programs": [p], "note": note, "assumptions": SIM + list(extra), "budget": budget}


VT = ["the library's own backend and the real event loop library run; their threads are real, but run one at a time (src/vt.*): "
      "switches happen at mutexes, condition variables, clock readings, waits, wake-ups and around enqueue, as drawn by the case",
      "the clocks are virtual: they go on with every reading and jump only when nothing can run",
      "data races: real threads and clocks under ThreadSanitizer (programs ...t); a case which does not end within 30 s gives no verdict; "
      "libev, fltk and wx themselves are not instrumented; reports whose top frame is in boost/lockfree are ignored",
      "clang 18 -O1, ASAN + UBSAN (or TSAN), assertions enabled"]


def backend(progs, note, extra=(), budget=(120, 780)):
    return {"programs": progs, "note": note, "assumptions": VT + list(extra), "budget": budget}


CHECKS = {
    "C01": sim("c01", "random trees with random hooks, stops and failures at random moments; order and counts of the lifecycle hooks"),
    "C02": sim("c02", "random trees with random initialization delays against a model of when each supervisor may become initialized/operational"),
    "C03": sim("c03", "random trees with injected initialization failures against a timed reference model of the policies"),
    "C04": sim("c04", "random trees stopped at random moments; completion, order and leftovers after it"),
    "C05": sim("c05", "generated histories of subscribe/unsubscribe/send/shutdown against a must/may delivery model"),
    "C06": sim("c06", "generated senders, receivers and cascades over several localities; order relations over the recorded history"),
    "C07": sim("c07", "actors in 2-4 localities subscribing to, unsubscribing from and sending to addresses of other localities against a must/may delivery model"),
    "C08": sim("c08", "generated request/response/timeout/cancel histories: exactly one answer, the right one, at the right time"),
    "C09": sim("c09", "generated timers started, cancelled and fired around shutdown, against a model of their fates"),
    "C10": sim("c10", "generated acyclic link graphs, dynamic links, declines, deferrals and shutdowns; order relations and completion"),
    "C11": sim("c11", "generated histories of registry messages from several clients against a map model with promises"),
    "C12": sim("c12", "generated sets of actors with overlapping declared names, delays, aliases, conflicts and shutdowns; a model of the registry tells what each may rely on"),
    "C13": sim("c13", "random spawners (policy, period, attempts, escalation) and outcomes of their instances against a model of the restart policy",
               ["gettimeofday is replaced by the virtual clock (spawners look at the wall clock)"]),
    "C14": sim("c14", "random trees with random escalation flags and failures; who went down and with which chain of reasons"),
    "C15": sim("c15", "random acquire/release histories against a counting model"),
    "C16": sim("c16", "generated routes, redirects and keepers over several localities: every delivery is attributed to a stage of its message"),
    "C17": sim("c17", "generated error chains and messages (all framework types, user types) against a text model; live traffic under inspection"),
    "C18": sim("c18", "random sequences of builder settings over trees; created or refused, and what the settings do in virtual time"),
    "C23": sim("c23", "actors in 1-4 localities with tagged handlers; which calls were seen by the intercept hook and what its verdict did"),
    "C24": sim("c24", "random trees whose actors have plugins of the user, which suspend, resume and observe the lifecycle"),
    "C19": backend(["c19", "c19t"], "random trees on 1-3 thread loops and outside threads under drawn schedules; deliveries, threads, timers, requests and shutdown against counters; the same traffic on real threads under TSAN"),
    "C20": backend(["c20", "c20t"], "random trees on strands, contexts and worker threads under drawn schedules; deliveries, strands, timers, forwarded calls and shutdown against counters; the same traffic on real threads under TSAN"),
    "C21": backend(["c21", "c21t"], "random trees on 1-3 libev loops under drawn schedules; deliveries, threads, timers, requests, shutdown and release against counters; the same traffic on real threads under TSAN"),
    "C22": backend(["c22f", "c22w", "c22ft", "c22wt"], "random trees in the fltk and the wx loop, fed by other threads under drawn schedules, several systems in one process; deliveries, timers, shutdown and release against counters; the same traffic on real threads under TSAN",
                   ["no display: the toolkits' loops run without windows (fltk 1.3 event loop, wxWidgets 3.2 console event loop)"]),
}
