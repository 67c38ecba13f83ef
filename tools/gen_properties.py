#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

D = ["include/rotor/supervisor.h", "src/rotor/plugin/delivery.cpp", "src/rotor/subscription.cpp"]
prop("P01", "Every message is delivered exactly once to every subscriber, and only to them",
 "A message sent to an address is handed, unaltered, exactly once to every handler that is subscribed to that message type on that address when it is dispatched, and to no other handler; if there are no subscribers it is dropped without effect. This holds whether the sender, the address owner and the subscriber live in the same supervisor, in different supervisors of one event loop, or in different event loops, and for handlers given as actor methods, plugin methods or lambdas.",
 ["histories", "schedules", "configurations"],
 "every set of actors, addresses, message types and subscriptions spread over any number of supervisors and localities, every order in which localities run, both delivery flavours (plain and inspected)",
 "The tests send one or two messages between two or three actors in one fixed schedule; they never combine several types, several addresses, many subscribers and several localities, nor compare the full multiset of deliveries with an oracle.",
 D + ["include/rotor/handler.h", "include/rotor/message.h", "src/rotor/plugin/foreigners_support.cpp"],
 [("queue draining and recipients lookup", "include/rotor/supervisor.h delivery_plugin_t::process"),
  ("fan-out to local and foreign handlers", "src/rotor/plugin/delivery.cpp local_delivery_t::delivery"),
  ("handler table", "src/rotor/subscription.cpp materialize/forget/get_recipients"),
  ("foreign handler call", "src/rotor/plugin/foreigners_support.cpp on_call"),
  ("message type identity", "src/rotor/message.cpp register_type")],
 ["handler invocations recorded by instrumented actors"])
prop("P02", "Messages from one sender to one destination are processed in sending order",
 "The messages that one actor sends to one address are processed by each subscriber in the order in which they were sent, including replies mixed with ordinary messages going the same way. All messages sent within one event loop to addresses of that event loop are processed in the order of sending, whoever the senders and receivers are.",
 ["schedules", "histories", "programs"],
 "every interleaving of any number of sending actors in any number of localities, with plain messages, requests, responses and routed messages mixed",
 "Ordering is asserted in the tests for single pairs in a single schedule; the property is about all interleavings and mixes.",
 D + ["src/rotor/supervisor.cpp", "include/rotor/request.hpp"],
 [("FIFO queue of the locality", "include/rotor/supervisor.h put/process"),
  ("responses keep their place", "src/rotor/supervisor.cpp uplift_last_message"),
  ("inbound queues", "src/rotor/thread/system_context_thread.cpp run, src/rotor/ev/supervisor_ev.cpp move_inbound_queue, src/rotor/asio/supervisor_asio.cpp, src/rotor/wx/supervisor_wx.cpp, src/rotor/fltk/supervisor_fltk.cpp")],
 ["sequence numbers carried in payloads, checked at each receiver"])
prop("P03", "A handler runs only while its subscription is in force",
 "A handler receives messages dispatched after its subscription was confirmed and receives nothing once its unsubscription was confirmed or its actor has shut down; each subscription and each unsubscription is confirmed exactly once. Adding or removing a subscription, even from inside a handler of the very message being dispatched or from another event loop, never disturbs any other subscription nor the ongoing dispatch.",
 ["histories", "schedules"],
 "every sequence of subscribe, unsubscribe, send, shut down operations by local and foreign subscribers, including re-entrant ones, over all locality schedules",
 "The tests subscribe once per handler and unsubscribe in a fixed order; they do not churn subscriptions under traffic or change them from within a dispatch.",
 ["src/rotor/subscription.cpp", "src/rotor/subscription_point.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/foreigners_support.cpp", "src/rotor/plugin/plugin_base.cpp"],
 [("subscription table update", "src/rotor/subscription.cpp materialize/forget"),
  ("actor-side list of points", "src/rotor/plugin/lifetime.cpp"),
  ("two-phase foreign (un)subscription", "src/rotor/plugin/foreigners_support.cpp"),
  ("confirmation fan-out to plugins", "src/rotor/actor_base.cpp on_subscription/on_unsubscription")],
 ["handler invocations and confirmation messages"])
prop("P04", "Every request yields exactly one outcome, never a late or duplicate one",
 "An actor that sent a request and keeps running receives exactly one response for it: the responder's first answer if it arrives before the timeout, otherwise one timeout error that names the requester and carries the original request. Further answers, answers after the timeout and answers to unknown requests are never delivered, a response always reaches the reply address chosen at sending with the responder's payload or error untouched, and once the requester or its supervisor has shut down nothing is delivered at all.",
 ["schedules", "histories", "fault_sequences"],
 "every mix of outstanding requests of several types between actors of any localities with responders that reply at once, later, twice, with an error, from another actor, after the deadline or never, and with requesters that shut down in between",
 "Tests cover one request at a time with a scripted answer or a scripted timeout; the races between answer, timeout, duplicate and shutdown over many concurrent requests are not enumerated.",
 ["include/rotor/request.hpp", "include/rotor/supervisor.h", "src/rotor/supervisor.cpp", "src/rotor/address_mapping.cpp"],
 [("request bookkeeping", "include/rotor/supervisor.h request_builder_t::send/install_handler"),
  ("timeout / cancellation", "src/rotor/supervisor.cpp on_request_trigger, discard_request"),
  ("cancellation on shutdown", "src/rotor/actor_base.cpp shutdown_finish")],
 ["responses seen by requesters, with request identity, error chain and payload"])
prop("P05", "Every timer ends exactly once: fired, or cancelled - never both, never after",
 "Each started timer invokes its callback exactly once: as triggered if it expires first, or as cancelled, synchronously, if it is cancelled first; timers do not influence one another even when they are started and cancelled from timer callbacks. When its actor shuts down all its pending timers are cancelled before the shutdown completes, and no callback runs afterwards.",
 ["histories", "schedules"],
 "every sequence of starting, cancelling, expiring timers in message handlers, timer callbacks and lifecycle hooks of any number of actors, mixed with requests (whose timeouts share the identifiers)",
 "The tests start one or two timers each and never mix starts, cancels and expiries of many timers inside callbacks.",
 ["src/rotor/actor_base.cpp", "include/rotor/timer_handler.hpp", "include/rotor/supervisor.h", "src/rotor/supervisor.cpp"],
 [("timer ownership and trigger", "src/rotor/actor_base.cpp on_timer_trigger/cancel_timer/shutdown_finish"),
  ("timer identities", "include/rotor/supervisor.h next_request_id")],
 ["timer callbacks"])
prop("P06", "An actor walks its life cycle once, in order, and its hooks fire accordingly",
 "Every actor passes through new, initializing, initialized, operational, shutting down and shut down only forwards and at most once each (it may skip to shutting down, never back), its start and finish hooks run exactly once in that order, and it becomes operational only after its own initialization has been confirmed to its supervisor. User message handlers configured at initialization only run in the states in which the actor exists for its supervisor, and after the shut-down hook finished no code of the actor is run by the framework.",
 ["schedules", "histories", "fault_sequences"],
 "every actor in every supervision tree under arbitrary initialization delays, failures, timeouts and shutdown requests arriving at any moment (including before initialization started and in the middle of it)",
 "Tests check the final states of scripted sequences; they do not place shutdown requests, failures and timeouts at every point of the life cycle.",
 ["src/rotor/actor_base.cpp", "src/rotor/plugin/init_shutdown.cpp", "src/rotor/plugin/starter.cpp", "src/rotor/plugin/child_manager.cpp", "include/rotor/state.h"],
 [("state changes", "src/rotor/actor_base.cpp init_start/init_finish/on_start/shutdown_start/shutdown_finish"),
  ("init/shutdown request handling", "src/rotor/plugin/init_shutdown.cpp"),
  ("start trigger", "src/rotor/plugin/starter.cpp on_start")],
 ["overridden life-cycle hooks of instrumented actors and supervisors"])
prop("P07", "A supervisor is initialized after all its children and starts them as told",
 "A supervisor does not report its own initialization before every child created during it has either finished initialization or gone down. With the strict policy, a child that fails (error, timeout, exception in factory) once the supervisor has been asked to initialize makes the supervisor itself fail to initialize and shut down; with the tolerant one the failed child is shut down with the initialization failure as the reason, and no failure is reported on behalf of the supervisor. With synchronized start no child becomes operational before the supervisor and all its initial children are initialized, without it each child starts right after its own initialization; every successfully initialized child of a live supervisor is started exactly once, also one created later.", ["schedules", "fault_sequences", "configurations"],
 "every supervision tree (nested supervisors in the same or other localities) with any subset of children slow, failing, timing out, shutting down in initialization, under every policy/synchronization setting and schedule",
 "Tests have one or two children with a fixed order of events; the composition over trees and failure subsets is not explored.",
 ["src/rotor/plugin/child_manager.cpp", "src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "include/rotor/policy.h"],
 [("waiting for children", "src/rotor/plugin/child_manager.cpp has_initializing/init_continue/on_init"),
  ("start barrier", "src/rotor/plugin/child_manager.cpp handle_start"),
  ("failure policy", "src/rotor/plugin/child_manager.cpp on_init/remove_child/on_spawn")],
 ["life-cycle hooks of supervisors and children"])
prop("P08", "Shutting down a tree always completes, children first, reasons kept",
 "Once a shutdown of a supervisor is requested, by anyone and at any moment and any number of times, the supervisor and all its descendants reach the shut-down state within their shutdown timeouts, every child being finished before its supervisor and none being started anew; a child that does not confirm in time is reported to the system context and does not hang the tree. Every actor ends with the first reason it was given, which is never lost or overwritten, and whose chain leads to the original cause.",
 ["schedules", "histories", "fault_sequences"],
 "every tree shape and moment (before, during and after initialization, during restarts, with links, names, timers, requests, resources outstanding), every order of concurrent shutdown requests to different members of the tree",
 "The tests shut idle trees down at a quiet moment and check the outcome of one schedule.",
 ["src/rotor/plugin/child_manager.cpp", "src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "src/rotor/plugin/lifetime.cpp", "src/rotor/plugin/init_shutdown.cpp"],
 [("shutdown propagation", "src/rotor/plugin/child_manager.cpp request_shutdown/on_shutdown_confirm/remove_child"),
  ("plugin deactivation in reverse order", "src/rotor/actor_base.cpp shutdown_continue/deactivate_plugins"),
  ("reason bookkeeping", "src/rotor/actor_base.cpp assign_shutdown_reason")],
 ["life-cycle hooks, shutdown reasons, system context errors, virtual time"])
prop("P09", "Failures escalate exactly as configured, and only then",
 "When a child marked for failure escalation goes down because of an error its supervisor is shut down with an escalation reason wrapping the child's one; when a child marked to take its supervisor down finishes for whatever cause the supervisor is shut down too. A child without such marks, or an escalating child that ends normally, never takes down an operational supervisor or any sibling.",
 ["configurations", "fault_sequences", "histories"],
 "every combination of marks over the members of a tree and every order and cause (normal, error, wrapped error) of their termination",
 "Tests exercise each flag once with one child.",
 ["src/rotor/actor_base.cpp", "src/rotor/plugin/child_manager.cpp", "include/rotor/actor_config.h", "src/rotor/extended_error.cpp"],
 [("escalation", "src/rotor/actor_base.cpp shutdown_start"),
  ("supervisor reaction", "src/rotor/plugin/child_manager.cpp on_shutdown_trigger/request_shutdown")],
 ["which supervisors shut down, and the shutdown reasons"])
prop("P10", "Spawned actors are restarted exactly as the restart policy says",
 "A spawner creates its first instance at once and creates a further one if and only if the previous instance is completely down (or its construction failed under a policy that retries), its supervisor is not shutting down, the attempts limit is not reached and the policy approves how the instance ended; so at most one instance is alive at any time and at most the allowed number is ever created. Two consecutive creations are never closer in time than the restart period, a failure is escalated to the supervisor when asked for and the spawner gives up, and shutting the supervisor down cancels any pending restart.",
 ["configurations", "fault_sequences", "schedules"],
 "every policy, attempts limit, period and escalation setting against every sequence of instance endings (normal, failure, initialization failure, factory exception) with several spawners in one supervisor and shutdown at any moment",
 "Tests walk through single policies with at most a few restarts and a fixed schedule.",
 ["src/rotor/spawner.cpp", "src/rotor/detail/child_info.cpp", "src/rotor/plugin/child_manager.cpp"],
 [("restart decision", "src/rotor/detail/child_info.cpp next_spawn/spawn_attempt"),
  ("respawn machinery", "src/rotor/plugin/child_manager.cpp on_spawn/remove_child/on_spawn_timer")],
 ["factory invocations and instance life-cycle hooks against a reference model of the policy"])
prop("P11", "A linked server outlives its clients, and link outcomes are definite",
 "A link request yields one definite outcome at the client: success only from a server that is not shutting down (and, for an operational-only link, is operational), otherwise an error that fails the client's initialization; linking twice is refused. A server that shuts down first asks all linked clients, and finishes only after each of them has unlinked or gone down (a client that fails to answer in time makes the server's shutdown reported as failed); a client that is asked shuts down after its own clients did unless it chose to stay, and a client that goes down, or gives up linking, releases the server.",
 ["schedules", "histories", "configurations"],
 "every acyclic graph of links over actors in any localities, every order of initialization, start and shutdown of its members, including simultaneous shutdown of both ends and shutdown while linking",
 "The tests use chains of two or three actors with one scripted shutdown order.",
 ["src/rotor/plugin/link_client.cpp", "src/rotor/plugin/link_server.cpp"],
 [("client side", "src/rotor/plugin/link_client.cpp"), ("server side", "src/rotor/plugin/link_server.cpp")],
 ["life-cycle hooks of linked actors and link callbacks"])
prop("P12", "The name registry is a consistent map from names to live services",
 "At any time the registry maps a name to the address given by the first registration that was not withdrawn; a second registration of a taken name is refused, discovery answers with exactly the current mapping or with an unknown-service error, and a deferred discovery is answered once, when the name appears, or with a cancellation. Actors registering and discovering names through the framework finish initialization only after all of them succeeded, fail it otherwise, and after such an actor is down none of the names it registered remain.",
 ["histories", "schedules", "inputs"],
 "every sequence of registrations, withdrawals by name and by address, discoveries, deferred discoveries and cancellations from clients in any localities, and every life cycle of registering/discovering actors",
 "Tests use a handful of names in scripted order.",
 ["src/rotor/registry.cpp", "src/rotor/plugin/registry.cpp", "include/rotor/registry.h"],
 [("registry actor", "src/rotor/registry.cpp"), ("client plugin", "src/rotor/plugin/registry.cpp")],
 ["responses of the registry against a reference map; content of the map after actors went down"])
prop("P13", "Held resources and unfinished plugins gate initialization and shutdown exactly",
 "An actor does not become initialized while any resource acquired during initialization is held or any of its plugins postpones it (e.g. until all its initial subscriptions are confirmed), and does not finish shutting down while any resource is held or a plugin postpones it; as soon as the last one is released the postponed phase completes without further stimulus, whatever the number of resources, nested acquisitions and order of release, also if plugins polled later acquire more. Holding is counted per resource identifier and queries about it always answer with the exact count.",
 ["histories", "schedules"],
 "every sequence of acquiring and releasing several counted resources in all states and callbacks, combined with links, names, subscriptions and timers that gate the same phases",
 "Tests acquire and release one resource in one order.",
 ["src/rotor/plugin/resources.cpp", "src/rotor/actor_base.cpp", "src/rotor/plugin/starter.cpp"],
 [("resource counters", "src/rotor/plugin/resources.cpp"), ("phase progress", "src/rotor/actor_base.cpp init_continue/shutdown_continue")],
 ["life-cycle hooks against a reference counter"])
prop("P14", "A routed message reaches its second address once, after all first recipients",
 "A message sent with a follow-up address is delivered to the follow-up address exactly once, after every subscriber of its first address has processed it and nobody keeps it, also if the first address has no subscribers or has subscribers in other event loops, and carries along what the subscribers changed in it. A message redirected by its handler goes on to the new address with the same content, and its follow-up address is honoured likewise.",
 ["histories", "schedules", "configurations"],
 "every number and placement of recipients (none, local, foreign, mixed, shutting down in between) of the first and the follow-up address, every schedule",
 "Tests have a single schedule with one or two recipients.",
 ["include/rotor/supervisor.h", "src/rotor/messages.cpp", "src/rotor/actor_base.cpp", "include/rotor/messages.hpp"],
 [("routing after local delivery", "include/rotor/supervisor.h delivery_plugin_t::process"),
  ("routing after foreign delivery", "src/rotor/messages.cpp handler_call_t::~handler_call_t"),
  ("redirect", "src/rotor/actor_base.cpp redirect")],
 ["handler invocations with sequence stamps"])
prop("P15", "No memory is misused and everything is reclaimed, whatever the history",
 "No history of operations allowed by the API makes the library access freed or foreign memory, overflow, or perform undefined behaviour or trip one of its internal consistency checks. After the root supervisor of a system has shut down and the user dropped the system, all actors, addresses, messages, handlers and payloads have been destroyed exactly once, including undelivered messages still waiting in queues.",
 ["histories", "schedules", "fault_sequences"],
 "arbitrary random mixtures of all features (subscriptions, requests, timers, links, names, spawners, resources, routing, nested supervisors, localities) with failures and shutdowns injected anywhere, in simulated and in real event loops",
 "The test suite runs benign scenarios and without sanitizers.",
 ["src/rotor/actor_base.cpp", "src/rotor/supervisor.cpp", "src/rotor/system_context.cpp", "include/rotor/arc.hpp", "src/rotor/plugin/child_manager.cpp", "src/rotor/plugin/registry.cpp", "src/rotor/plugin/link_client.cpp"],
 [("reference counting", "include/rotor/arc.hpp"), ("queue draining at destruction", "src/rotor/supervisor.cpp ~supervisor_t, src/rotor/system_context.cpp")],
 ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, assertions, live-object counters"])
prop("P16", "Threads share nothing unsynchronised; an actor is never re-entered",
 "Systems of actors spread over several threads and exchanging messages, requests, subscriptions, links and names execute without data races in the library. Code of actors belonging to one event loop is never executed by two threads at a time nor re-entered from within itself by the delivery of another message.",
 ["schedules", "programs"],
 "every thread interleaving of supervisors of the thread, asio, ev (and mixed) backends exchanging all kinds of messages, during start, work and shutdown",
 "The tests run without a race detector, mostly in a single thread; a race shows up only in rare interleavings.",
 ["include/rotor/arc.hpp", "include/rotor/supervisor.h", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/thread/system_context_thread.cpp", "src/rotor/asio/supervisor_asio.cpp", "src/rotor/ev/supervisor_ev.cpp", "src/rotor/messages.cpp"],
 [("thread-safe reference counters", "include/rotor/arc.hpp"), ("cross-thread hand-over", "enqueue() of each backend"), ("strand serialisation", "src/rotor/asio/supervisor_asio.cpp")],
 ["ThreadSanitizer reports, per-event-loop re-entrance monitor in every handler"])
prop("P17", "Event loops never lose a wake-up: outside messages are processed, loops stop",
 "In every event loop backend, a message handed over from any thread at any moment is processed promptly - neither lost, duplicated nor parked until some unrelated event - also when it is addressed to a nested supervisor of that loop, when many threads flood the loop, when the loop is just going to sleep and whatever polling and queue-size settings are used. A shutdown requested from another thread or through the shutdown flag always makes the loop's supervisor shut down and, where the backend owns the loop, makes the running call return.",
 ["schedules", "configurations", "histories"],
 "every timing of hand-overs from foreign threads relative to the loop's phases (processing, polling, about to sleep, sleeping, shutting down) for the thread, asio, ev, wx and fltk backends with zero and non-zero poll duration and nested supervisors",
 "Backend tests exchange a few messages and would notice a lost wake-up only if it happened in that very run.",
 ["src/rotor/thread/system_context_thread.cpp", "src/rotor/thread/supervisor_thread.cpp", "src/rotor/asio/supervisor_asio.cpp", "src/rotor/ev/supervisor_ev.cpp", "src/rotor/wx/supervisor_wx.cpp", "src/rotor/fltk/supervisor_fltk.cpp", "src/rotor/supervisor.cpp"],
 [("sleep/notify protocol", "src/rotor/thread/system_context_thread.cpp run / supervisor_thread.cpp enqueue"),
  ("async watcher", "src/rotor/ev/supervisor_ev.cpp"), ("strand defer", "src/rotor/asio/supervisor_asio.cpp"),
  ("shutdown flag", "src/rotor/supervisor.cpp on_shutdown_check_timer")],
 ["receipts of numbered messages and their latency, return of the loop call"])
prop("P18", "Real event-loop timers fire once, not early, in order, and cancel synchronously",
 "In every event loop backend a timer fires once, not before its interval has elapsed on the loop's clock, and timers of clearly different deadlines fire in the order of deadlines (where one thread runs the loop and its toolkit keeps that order, i.e. not in fltk); a cancelled timer reports the cancellation before the cancelling call returns and never fires afterwards. What the callback sends is delivered without waiting for another event, and this also holds for timers started or cancelled inside timer callbacks, inside handlers tagged as blocking, and by nested supervisors.",
 ["histories", "schedules", "configurations"],
 "every random program of timer starts and cancellations issued from handlers, callbacks and blocking handlers, in each of the thread, asio, ev, wx and fltk backends",
 "Backend tests start one or two timers; interactions between several timers and blocking handlers are not reached.",
 ["src/rotor/thread/system_context_thread.cpp", "src/rotor/asio/supervisor_asio.cpp", "src/rotor/ev/supervisor_ev.cpp", "src/rotor/wx/supervisor_wx.cpp", "src/rotor/fltk/supervisor_fltk.cpp"],
 [("sorted deadlines", "src/rotor/thread/system_context_thread.cpp update_time/start_timer/cancel_timer"),
  ("backend timers", "do_start_timer/do_cancel_timer of each backend")],
 ["timer callbacks with clock readings"])
prop("P19", "Errors keep their causes, and every message and error can be rendered faithfully",
 "An error built on another one keeps it reachable: its root is the innermost cause, its text lists every context and message from the outermost to the innermost, and the original request when given; every error code of the library has its own distinct, stable category and text. The default stringifier renders every kind of message the framework can produce, in any combination of success and error, without failing, and shows the involved identities and errors.",
 ["inputs", "histories"],
 "every chain of nested errors of any depth and every framework message with arbitrary contents",
 "Tests check a few literal strings.",
 ["src/rotor/extended_error.cpp", "src/rotor/error_code.cpp", "src/rotor/misc/default_stringifier.cpp", "include/rotor/extended_error.h"],
 [("chain walk", "src/rotor/extended_error.cpp"), ("error categories", "src/rotor/error_code.cpp"), ("message visitor", "src/rotor/misc/default_stringifier.cpp")],
 ["strings and roots against a reference renderer"])
prop("P20", "A misconfigured actor is never created; a configured one is as configured",
 "Building an actor or supervisor from an incomplete or contradictory configuration creates nothing, returns nothing and reports one misconfiguration error to the system context; any complete configuration yields an instance that shows exactly the configured options, independent of the order in which the options were set. A system accepts one root supervisor and reports any further one as an error without disturbing the first.",
 ["configurations", "inputs"],
 "every subset, order and combination of builder options for actors, supervisors and all backend supervisors",
 "Tests leave out one option at a time.",
 ["include/rotor/actor_config.h", "include/rotor/supervisor_config.h", "include/rotor/supervisor.h", "src/rotor/system_context.cpp", "include/rotor/asio/supervisor_config_asio.h", "include/rotor/ev/supervisor_config_ev.h", "include/rotor/wx/supervisor_config_wx.h"],
 [("validation masks", "include/rotor/actor_config.h, include/rotor/supervisor_config.h"), ("root registration", "include/rotor/supervisor.h create_supervisor")],
 ["returned pointers, system context errors, observable effects of options"])
prop("P21", "Tagged handlers, and only they, pass through interception, once per message",
 "Every message for a handler tagged as blocking goes through the interception hook of the supervisor exactly once, carrying the message and the tag, and the handler runs exactly when and as often as the hook lets it continue; handlers without the tag never pass the hook. Tagging neither loses, duplicates nor reorders messages, works for local and foreign senders and addresses, and the tagged handler can still be unsubscribed.",
 ["histories", "configurations", "schedules"],
 "every mix of tagged and plain handlers for the same and different messages and addresses, with hooks that let messages through or swallow them",
 "Tests tag a single handler.",
 ["src/rotor/handler.cpp", "src/rotor/subscription.cpp", "src/rotor/subscription_point.cpp", "src/rotor/thread/supervisor_thread.cpp"],
 [("handler upgrade", "src/rotor/subscription_point.cpp tag, src/rotor/subscription.cpp update"), ("interception", "src/rotor/handler.cpp handler_intercepted_t")],
 ["interception hook and handler invocations"])
prop("P22", "Forwarded asio completions reach the actor once, in its loop, with the result",
 "The completion of every asynchronous operation that was forwarded into an actor of an asio supervisor is executed exactly once, by the handler meant for its outcome (results or errors) and with the result or error unaltered, also results which can only be moved. It is executed in the sequential context of the actor's supervisor, i.e. never concurrently with other code of that event loop whatever number of threads runs it; the messages the handler sends are processed without any further stimulus, and the actor stays alive until all its completions are executed, even if it has shut down meanwhile.",
 ["histories", "schedules"],
 "every program of overlapping timers, socket operations and posted callbacks of several actors and supervisors, sharing strands or not, run by one or several threads",
 "No test of the repository uses the forwarder with several threads or checks what becomes of messages sent by completions.",
 ["include/rotor/asio/forwarder.hpp", "src/rotor/asio/supervisor_asio.cpp"],
 [("forwarding onto the strand", "include/rotor/asio/forwarder.hpp forwarder_t::operator()"), ("locality of a strand", "supervisor_asio_t::make_address")],
 ["completion handlers", "messages sent by them"])
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
