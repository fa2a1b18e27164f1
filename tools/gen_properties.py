#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Every actor walks its lifecycle in order, each phase at most once",
 "Every actor and supervisor passes through its lifecycle phases (created, initializing, initialized, operational, shutting down, shut down) only forwards, and each lifecycle hook the user may override runs at most once and in that order. An actor is started only after its initialization finished and never once its shutdown has begun, and a shut-down is always announced to the actor before it is completed. Once an actor is shut down none of its message handlers, response handlers or timer callbacks run again.",
 ["programs", "schedules", "fault_sequences"],
 "for every tree of actors and supervisors, every interleaving of message processing across localities, timers, spontaneous shutdowns, init failures and timeouts",
 "tests drive a handful of fixed trees and shut them down from quiet states; they do not interleave shutdowns, timeouts and in-flight traffic at every phase",
 ["src/rotor/actor_base.cpp", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/foreigners_support.cpp"],
 [("state transitions in init/shutdown continuation", "src/rotor/actor_base.cpp: init_continue, shutdown_continue"),
  ("start gate", "src/rotor/plugin/starter.cpp: on_start"),
  ("dead/foreign subscriber check", "src/rotor/plugin/foreigners_support.cpp: on_call")],
 ["virtual lifecycle hooks (init_start, init_finish, on_start, shutdown_start, shutdown_finish)", "user message handlers and timer callbacks"],
 [{"name": "state", "meaning": "lifecycle phase of an actor", "where": "include/rotor/actor_base.h"}])

prop("C02", "A supervisor becomes initialized and operational only as a whole tree",
 "A supervisor finishes its initialization only when every child it has at that moment has finished its own initialization (or is being shut down), recursively down the tree. Children of an ordinary supervisor are started as soon as they are initialized; children that exist when a supervisor with synchronized start finishes its initialization are started only after the supervisor itself started, i.e. after all of them were initialized; later ones as soon as they are initialized. When nothing fails and all timeouts are generous, the whole tree becomes operational.",
 ["programs", "schedules", "configurations"],
 "for every tree shape, per-supervisor start policy, per-child initialization delay, children created before or during initialization, and every interleaving of the localities",
 "tests fix one or two children with a fixed delay; the barrier has to hold for every relative order of slow and fast initializations at every depth",
 ["src/rotor/plugin/child_manager.cpp", "src/rotor/actor_base.cpp", "src/rotor/plugin/starter.cpp"],
 [("initializing-children predicate", "src/rotor/plugin/child_manager.cpp: has_initializing, handle_init, on_init"),
  ("synchronized start", "src/rotor/plugin/child_manager.cpp: handle_start")],
 ["order of init_finish/on_start hooks over the tree"])

prop("C03", "A child failing to initialize is handled as the supervisor's policy says",
 "If a child of a still-initializing supervisor fails to initialize (by shutting itself down, by an error, or by exceeding its initialization timeout), then under the shut-down-self policy the supervisor and everything below it is shut down and never becomes operational, and the failure propagates to its own parent by the same rule; under the shut-down-failed policy only the failed child is shut down, and the supervisor continues and becomes operational with the remaining children; a child failing under an already operational supervisor, or going down after it was started, leaves the supervisor and the siblings alone. An initialization timeout is never reported for an actor that finished its initialization in time.",
 ["programs", "fault_sequences", "configurations"],
 "for every tree, policy assignment, set of failing children, way and moment of failing relative to the siblings",
 "tests have one failing child per policy; nesting of policies, several simultaneous failures and failure during the siblings' initialization are not explored",
 ["src/rotor/plugin/child_manager.cpp", "src/rotor/supervisor.cpp", "include/rotor/policy.h"],
 [("policy dispatch on failed init", "src/rotor/plugin/child_manager.cpp: on_init, remove_child")],
 ["final lifecycle phase of every actor in the tree"])

prop("C04", "Shutdown always completes, children first, and leaves nothing behind",
 "Once the shutdown of an actor or supervisor is requested it always completes, whatever it is doing at that moment (provided its own resources get released and it takes part in no cyclic links): every descendant reaches the shut-down phase, each child strictly before its supervisor. Afterwards no timer, pending request, queued message or subscription of these actors is left behind, and all their memory is released once the last external reference is dropped.",
 ["programs", "schedules", "crash_points", "fault_sequences"],
 "for every tree, every set of shutdown requests (from inside, from siblings, from outside, from the polled shutdown flag, repeated) issued at every point of initialization, operation or shutdown, with messages, requests, timers, links and subscriptions in flight",
 "tests shut small trees down from a quiescent operational state; the claim is about every moment and every pending activity",
 ["src/rotor/plugin/child_manager.cpp", "src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/plugin_base.cpp", "src/rotor/plugin/init_shutdown.cpp"],
 [("children-first shutdown", "src/rotor/plugin/child_manager.cpp: handle_shutdown, request_shutdown, on_shutdown_confirm"),
  ("unsubscription and plugin deactivation", "src/rotor/plugin/lifetime.cpp, src/rotor/plugin/plugin_base.cpp"),
  ("timer/request cancellation", "src/rotor/actor_base.cpp: shutdown_finish")],
 ["order of shutdown_finish hooks", "pending timers of the event loop", "leak and use-after-free sanitizers"])

prop("C05", "A message reaches each current subscriber of its address once, nobody else",
 "A message sent to an address is delivered exactly once to every handler for its type that is subscribed to that address when it is sent and stays subscribed until it is processed, with its payload intact. Handlers of other types or addresses, handlers never subscribed, and handlers whose unsubscription was requested before the message was sent never see it; this holds for any history of subscribing and unsubscribing, including from within handlers, repeatedly, and on additional addresses.",
 ["histories", "programs", "inputs"],
 "for every history of subscribe, unsubscribe, re-subscribe, send and forward operations over several actors, handlers, message types and addresses, issued from outside or from within handlers",
 "tests use one or two subscriptions each and never interleave unsubscription with messages in flight or re-subscription",
 ["src/rotor/subscription.cpp", "src/rotor/subscription_point.cpp", "src/rotor/plugin/delivery.cpp", "include/rotor/supervisor.h", "include/rotor/handler.h", "src/rotor/plugin/lifetime.cpp"],
 [("recipient lookup by address and type", "src/rotor/subscription.cpp: materialize, forget, get_recipients"),
  ("delivery loop", "include/rotor/supervisor.h: delivery_plugin_t::process; src/rotor/plugin/delivery.cpp")],
 ["invocations of user handlers with unique payload ids"])

prop("C06", "Messages from one sender to one receiver arrive in sending order",
 "Messages sent by one actor to one address are received by each subscriber in the order they were sent, within a locality and across localities, and all messages within one locality are delivered in the global order in which they were sent there. Responses take part in this order: a response is received after what the responder sent to the requester before it, and before what it sent after it.",
 ["histories", "schedules"],
 "for every interleaving of sends, responses and processing over several actors and localities",
 "tests send one or two messages; ordering bugs show when several messages, responses and localities interleave",
 ["include/rotor/supervisor.h", "src/rotor/supervisor.cpp", "src/rotor/plugin/delivery.cpp"],
 [("FIFO locality queue", "include/rotor/supervisor.h: put, process"),
  ("response uplift", "src/rotor/supervisor.cpp: uplift_last_message")],
 ["sequence numbers observed by user handlers"])

prop("C07", "Subscriptions across localities deliver exactly once, on the subscriber's side",
 "An actor may subscribe to an address owned by a supervisor of another locality: after the subscription is confirmed every message sent to that address is handed to it exactly once, executed in the context of its own locality and never in the owner's. After it has unsubscribed or shut down it gets nothing more, whatever is still in flight between the localities, and either side can shut down first-subscriber without disturbing the other subscribers.",
 ["schedules", "histories", "fault_sequences"],
 "for every interleaving of the processing of several localities with subscriptions, unsubscriptions, sends and actor shutdowns",
 "tests have one external ping-pong and one observer with a fixed schedule; in-flight races between localities are not explored",
 ["src/rotor/plugin/foreigners_support.cpp", "src/rotor/plugin/delivery.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/plugin_base.cpp"],
 [("external call wrapping", "src/rotor/plugin/delivery.cpp: local_delivery_t::delivery"),
  ("liveness and subscription re-check", "src/rotor/plugin/foreigners_support.cpp: on_call")],
 ["locality being processed while a handler runs", "handler invocations"])

prop("C08", "Every request gets exactly one response: the first reply, an error, or a timeout",
 "Every request of an actor that stays alive is answered to it exactly once: with the first reply (or error reply) made to it if that arrives before the timeout, and otherwise with a timeout error once the timeout expired, even if the responder is missing, unsubscribed, shut down or in another locality. The response carries the original request and the replied payload; late, duplicate and cancelled replies are never seen, and an actor that has shut down gets no responses at all.",
 ["histories", "schedules", "fault_sequences"],
 "for every history of overlapping requests of several types between several actors and localities, with immediate, delayed, repeated, erroneous or missing replies, and every race of reply, timeout and shutdown",
 "tests cover single requests in fixed order; races between reply, timeout, duplicate replies and requester shutdown need generated schedules",
 ["include/rotor/supervisor.h", "include/rotor/request.hpp", "src/rotor/supervisor.cpp", "src/rotor/address_mapping.cpp"],
 [("request bookkeeping", "include/rotor/supervisor.h: request_builder_t::send, install_handler; src/rotor/supervisor.cpp: on_request_trigger, discard_request"),
  ("response addresses", "src/rotor/address_mapping.cpp")],
 ["response handlers of the requesting actor"])

prop("C09", "Every started timer calls back exactly once: fired or cancelled",
 "A started timer calls its callback exactly once: with the not-cancelled flag if and only if it expired, and with the cancelled flag during the cancelling call or, at the latest, while its actor finishes its shutdown. Timers and requests never share an identifier while both are outstanding, cancelling or starting timers inside a timer callback affects only the named timer, and no timer is left after the shutdown of its actor.",
 ["histories", "schedules"],
 "for every sequence of starting, cancelling, firing (from outside and from inside callbacks), requests and shutdown over several actors",
 "tests start and cancel single timers; the exactly-once claim ranges over every combination with shutdown and reentrancy",
 ["src/rotor/actor_base.cpp", "include/rotor/supervisor.h", "include/rotor/timer_handler.hpp", "src/rotor/supervisor.cpp"],
 [("timer registry of an actor", "src/rotor/actor_base.cpp: on_timer_trigger, cancel_timer, shutdown_finish")],
 ["timer callbacks"])

prop("C10", "Linked servers outlive their clients' use of them; unlinking cascades leaf-first",
 "An actor that links to servers becomes initialized only after every link was confirmed, and with an operational-only link only after the server is operational; a link to a server that is shutting down is refused with an error and fails the client's initialization. A server never completes its shutdown while a linked client has neither been told to unlink nor begun shutting down itself, and a client that has linked clients of its own lets go of its servers only after those clients let go of it. A client told to unlink shuts down by default, and stays alive if it declines.",
 ["programs", "schedules", "histories", "fault_sequences"],
 "for every acyclic link graph over actors in one or several localities, every mix of link kinds, and every order and moment of shutdowns, including during linking",
 "tests link two or three actors in a fixed order; the ordering claim is over whole graphs and racing shutdowns",
 ["src/rotor/plugin/link_client.cpp", "src/rotor/plugin/link_server.cpp"],
 [("link handshake", "src/rotor/plugin/link_server.cpp: on_link_request, handle_start"),
  ("unlink handshake", "src/rotor/plugin/link_client.cpp: forget_link, try_forget_links; src/rotor/plugin/link_server.cpp: notify_shutdown")],
 ["lifecycle hooks, unlink hook and link callbacks over the graph"])

prop("C11", "The registry behaves as a name-to-address map with promises",
 "Against any history of register, deregister (one name, or all names of an address), discover, delayed discover and cancel messages, the registry answers exactly as a map from unique names to addresses: registering a taken name fails with already-registered and changes nothing, discovery returns the registered address or unknown-service, and other names are never affected. A delayed discovery is answered exactly once: at once if the name is known, otherwise when it is next registered, or with a cancelled error when cancelled.",
 ["histories", "inputs"],
 "for every history of registry messages over several names, addresses and clients",
 "tests run a few linear scripts; the map semantics range over all histories",
 ["src/rotor/registry.cpp", "include/rotor/registry.h"],
 [("name maps and promises", "src/rotor/registry.cpp")],
 ["responses of the registry"])

prop("C12", "Declared services are registered, discovered and linked before operation",
 "An actor that declares names to register or to discover becomes initialized only after all of them succeeded: every discovered address is then set to the address registered under that name and linked to it, and its own names can be discovered by others until it shuts down, after which they are free again. If a name is taken, or a non-delayed discovery finds no such name, the initialization fails; a delayed discovery waits for the name to be registered and is withdrawn if the actor is shut down meanwhile.",
 ["programs", "schedules", "fault_sequences"],
 "for every set of actors with overlapping registered and discovered names, creation orders and delays, aliases, localities and shutdown moments",
 "tests use one provider and one consumer in fixed order; ordering, aliases, name conflicts and shutdown during discovery need generated programs",
 ["src/rotor/plugin/registry.cpp", "src/rotor/registry.cpp", "src/rotor/plugin/link_client.cpp"],
 [("registration and discovery tasks", "src/rotor/plugin/registry.cpp")],
 ["init_finish/on_start hooks, discovered address variables, direct registry queries"])

prop("C13", "A spawner restarts its actor exactly as its restart policy says",
 "A spawner creates its first instance once and a further instance only after the previous one has completely shut down, exactly when its policy (always, never, ask the actor, only after normal end, only after failure) says so, never more than the maximum number of attempts, and not earlier than the restart period after the previous attempt; at most one instance is alive at a time. When failure escalation is requested, exhausting the attempts or a failure that forbids restarting shuts the supervisor down. After its supervisor began shutting down no new instance is created and the supervisor still completes its shutdown, without waiting for a pending restart, and also when the factory throws.",
 ["configurations", "histories", "fault_sequences"],
 "for every combination of policy, period, attempts and escalation, every sequence of instance outcomes (normal end, failure, failed initialization, throwing factory) and every moment of supervisor shutdown",
 "tests fix one outcome sequence for some policies; the combination space and shutdown races are not enumerated",
 ["src/rotor/detail/child_info.cpp", "src/rotor/plugin/child_manager.cpp", "src/rotor/spawner.cpp"],
 [("restart decision", "src/rotor/detail/child_info.cpp: next_spawn, spawn_attempt"),
  ("restart execution", "src/rotor/plugin/child_manager.cpp: remove_child, on_spawn, on_spawn_timer")],
 ["factory invocations and instance lifecycle hooks"])

prop("C14", "Failures escalate exactly along the escalating flags, with the right reasons",
 "When an actor shuts down, its supervisor is taken down exactly if the actor is marked to shut the supervisor down with it, or is marked to escalate failures and went down with an error rather than normally; unmarked actors never take their supervisor or siblings down. The recorded shutdown reason of every actor is the first reason given to it, and following its chain of causes leads to the error that originally triggered the cascade.",
 ["programs", "configurations", "fault_sequences"],
 "for every tree with every assignment of the flags, every set of actors failing or ending normally at any phase",
 "tests check single-level escalation; cascades over several levels and concurrent triggers are not covered",
 ["src/rotor/actor_base.cpp", "src/rotor/plugin/child_manager.cpp", "src/rotor/extended_error.cpp", "src/rotor/plugin/init_shutdown.cpp"],
 [("escalation", "src/rotor/actor_base.cpp: shutdown_start"), ("first reason wins", "src/rotor/actor_base.cpp: assign_shutdown_reason")],
 ["final phases and shutdown reasons of all actors"])

prop("C15", "Held resources suspend initialization and shutdown until all are released",
 "While an actor holds at least one acquired resource it neither completes its initialization nor completes its shutdown, and it proceeds promptly once the last one is released, whatever the order, number and moments of acquiring and releasing. The number held per resource is reported exactly.",
 ["histories", "schedules"],
 "for every history of acquiring and releasing several counted resources during configuration, initialization, operation and shutdown",
 "tests hold one resource once per phase; interleavings over phases and counts are not covered",
 ["src/rotor/plugin/resources.cpp", "src/rotor/actor_base.cpp"],
 [("resource counters and continuation", "src/rotor/plugin/resources.cpp: acquire, release, handle_init, handle_shutdown")],
 ["init_finish and shutdown_finish hooks, counters"])

prop("C16", "A routed message goes on to its next address exactly once, after all recipients",
 "A message sent or redirected with a follow-up address is, after it was delivered to every subscriber of its first address (possibly none, possibly in other localities), delivered exactly once to the subscribers of the follow-up address with the same payload, and never before the last first-stage recipient handled it. If a recipient keeps or redirects the message itself, only that recipient decides where it goes.",
 ["histories", "schedules"],
 "for every set of local and foreign subscribers at both addresses, chains of redirects, and interleavings of the localities",
 "tests route one message with fixed subscribers",
 ["include/rotor/supervisor.h", "src/rotor/messages.cpp", "include/rotor/message.h", "src/rotor/actor_base.cpp"],
 [("follow-up on last reference", "include/rotor/supervisor.h: delivery_plugin_t::process; src/rotor/messages.cpp")],
 ["handler invocations at both addresses"])

prop("C17", "Errors and messages describe themselves totally and faithfully",
 "The text of an error is its context and description, with the request that caused it when there is one, followed by the same text of each of its causes in order; the root of an error is the innermost cause. Every error code of the framework and every framework message has a non-empty, distinct description, and rendering any message a user can create never fails, names its type, and mentions its destination as well as its failure, service name or subject address when it has one; the inspection of the delivery shows each processed message of the chosen level exactly once.",
 ["inputs"],
 "for every chain of errors (any length, codes, contexts, with or without request) and every framework or user message, with or without optional parts",
 "tests render a fixed list of messages and a two-level error",
 ["src/rotor/extended_error.cpp", "src/rotor/error_code.cpp", "src/rotor/misc/default_stringifier.cpp", "include/rotor/message_stringifier.h"],
 [("message()", "src/rotor/extended_error.cpp"), ("visitors", "src/rotor/misc/default_stringifier.cpp")],
 ["returned strings"])

prop("C18", "Only well-configured actors are created; misconfiguration is reported",
 "Creating an actor or supervisor yields an instance exactly when its configuration is complete and consistent (both timeouts given, and not both a registry of its own and a foreign registry address); otherwise no instance appears, an error is reported, and the system is left unchanged. A second root supervisor is refused, every configured value takes effect in the created actor, and a registry address is inherited down the tree unless overridden.",
 ["configurations"],
 "for every combination and order of builder settings over trees of supervisors",
 "tests check single builder settings",
 ["include/rotor/actor_config.h", "include/rotor/supervisor_config.h", "include/rotor/supervisor.h", "include/rotor/system_context.h", "src/rotor/supervisor.cpp"],
 [("builder validation", "include/rotor/actor_config.h: validate; include/rotor/supervisor_config.h: validate")],
 ["returned instance, reported errors, behaviour of the created tree"])

prop("C19", "Thread backend: exactly-once ordered messages and exact timers on real threads",
 "With every root supervisor running in a thread of its own, messages exchanged between actors of all supervisors (root or nested) arrive exactly once, in per-sender order, on the thread of the receiving actor, and without data races. Timers fire exactly once, in the order of their deadlines, never before their interval has passed in the loop's own time and as soon as the loop has nothing else to do, and cancelled ones never fire; a shutdown requested from any thread terminates all threads with everything shut down.",
 ["schedules", "programs", "histories"],
 "for every number of threads, tree, traffic pattern, polling mode and timer history, over the schedules the machine produces",
 "tests run one ping-pong and one timer per backend",
 ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp"],
 [("inbound queue and wake-up", "src/rotor/thread/supervisor_thread.cpp: enqueue; src/rotor/thread/system_context_thread.cpp: run"),
  ("timer list", "src/rotor/thread/system_context_thread.cpp: start_timer, update_time, cancel_timer")],
 ["handler invocations with thread ids, timer callbacks with clock readings"])

prop("C20", "Asio backend: exactly-once ordered messages and exact timers on strands",
 "With supervisors on any arrangement of strands and worker threads, messages arrive exactly once, in per-sender order, never concurrently with another handler of the same strand and without data races. Timers fire exactly once, never early, and cancelled ones never fire; a shutdown requested from any thread completes, after which the event loop runs out of work. Calls forwarded into a supervisor or actor execute once within its strand.",
 ["schedules", "programs", "configurations"],
 "for every arrangement of supervisors on strands, worker threads, polling modes, traffic patterns and timer histories, over the schedules the machine produces",
 "tests run ping-pongs on one or two strands and one timer",
 ["src/rotor/asio/supervisor_asio.cpp", "include/rotor/asio/forwarder.hpp", "include/rotor/asio/supervisor_asio.h"],
 [("inbound queue and deferral", "src/rotor/asio/supervisor_asio.cpp: enqueue, do_process"), ("timers", "src/rotor/asio/supervisor_asio.cpp: do_start_timer, do_cancel_timer")],
 ["handler invocations, concurrency counters per strand, timer callbacks with clock readings"])

prop("C21", "Libev backend: exactly-once ordered messages and exact timers across loops",
 "With supervisors on one or several event loops (one thread each), messages arrive exactly once, in per-sender order, on the thread of the receiving loop and without data races. Timers fire exactly once, never early, and cancelled ones never fire; a shutdown requested from any thread completes, after which the loop has nothing left to wait for, and everything is released.",
 ["schedules", "programs", "histories"],
 "for every number of loops, tree, polling mode, traffic pattern and timer history, over the schedules the machine produces",
 "tests run one ping-pong and one timer",
 ["src/rotor/ev/supervisor_ev.cpp"],
 [("async wake-up and inbound queue", "src/rotor/ev/supervisor_ev.cpp: enqueue, on_async"), ("timers", "src/rotor/ev/supervisor_ev.cpp: do_start_timer, do_cancel_timer, timer_cb")],
 ["handler invocations, timer callbacks"])

prop("C22", "GUI loop backends (wx, fltk) deliver like the others, from any thread",
 "Supervisors driven by a GUI toolkit's event loop deliver messages put in from any thread exactly once, in per-sender order, on the loop's thread and without data races. Timers fire exactly once, never early, and cancelled ones never fire; a shutdown request completes and releases everything, and a system can be created anew afterwards in the same process.",
 ["schedules", "programs", "histories"],
 "for every tree, traffic pattern from several threads, timer history and sequence of systems in one process",
 "tests run one ping-pong and one timer per toolkit",
 ["src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/fltk/system_context_fltk.cpp", "src/rotor/wx/supervisor_wx.cpp"],
 [("awake/CallAfter bridging", "src/rotor/fltk/system_context_fltk.cpp: enqueue; src/rotor/wx/supervisor_wx.cpp: enqueue")],
 ["handler invocations, timer callbacks"])

prop("C23", "Tagged handlers run only through their supervisor's interceptor",
 "When a subscription is tagged, every message for that handler is offered exactly once to the interceptor of the handler's supervisor with that message and tag, and the handler runs exactly as often and exactly when the interceptor continues; untagged handlers are never intercepted. Tagging changes neither who receives a message, nor the order, nor the ability to unsubscribe.",
 ["histories", "programs"],
 "for every set of tagged, re-tagged and untagged handlers, local or foreign, with interceptors that continue or drop",
 "tests check one tagged handler",
 ["src/rotor/handler.cpp", "src/rotor/subscription_point.cpp", "src/rotor/subscription.cpp"],
 [("interception", "src/rotor/handler.cpp: handler_intercepted_t"), ("handler replacement", "src/rotor/subscription.cpp: update")],
 ["interceptor and handler invocations"])

prop("C24", "Each plugin, the user's included, is polled through the whole lifecycle",
 "Each plugin in the list of an actor or supervisor, of the framework or of the user, is activated once, and those which the user may configure are configured once, in the configuration phase that was asked for. A plugin that reacts to the initialization is asked repeatedly, earlier plugins of the list before later ones, until it says that it is done, also when that reaction was turned on again meanwhile; only after that, and after the subscriptions declared through the starter are confirmed, the actor becomes initialized, and it does so promptly. The same holds for the shutdown in the reverse order. Plugins that react to the start are told about it exactly once, those that react to subscriptions see each of the actor's exactly once until they are done with them, all see the unsubscriptions of its own handlers, and all are deactivated before the shutdown completes.",
 ["histories", "programs", "configurations"],
 "for every list of plugins, places of the user's plugins in it, sets of reactions, moments of suspending and resuming, and moments of shutdown",
 "tests have at most one plugin of their own, which never suspends anything",
 ["src/rotor/actor_base.cpp", "src/rotor/plugin/plugin_base.cpp", "include/rotor/plugin/plugin_base.h", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/link_client.cpp", "src/rotor/plugin/resources.cpp", "src/rotor/plugin/registry.cpp"],
 [("polling of the plugins", "src/rotor/actor_base.cpp: init_continue, shutdown_continue, on_subscription, on_unsubscription"), ("configuration phases", "include/rotor/plugin/plugin_base.h: with_casted")],
 ["calls of the plugins' methods, configuration callbacks and lifecycle hooks"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
