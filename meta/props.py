"""The properties, from which gen.py writes properties.jsonl and MANIFEST.json.  Entries: id, title, statement,
quantifier kinds, quantifier text, why tests cannot settle it, mechanism [(name, where)], technique, note."""
H, I, S, F, C, PR = "histories", "inputs", "schedules", "fault_sequences", "configurations", "programs"
P = []


def p(id, title, statement, over, qtext, why, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, mech=mech, technique=technique, note=note, na=na))


FLOW = "path-sensitive interprocedural dataflow over the clang AST against a decision table"
WHO = "who-may-write / who-may-call scan over the resolved call graph"
p("C01", "Actor life-cycle states only move forward, in the documented order",
  "An actor is created new, then goes through initializing, initialized, operational, shutting down and shut down, never backwards, and only shutdown may skip states. "
  "Only the life-cycle operations change the state; initialization progress is evaluated only while the actor initializes, shutdown progress only while it shuts down, and an actor starts only when it is initialized.",
  [H, S], "every order of init, link, registry, timer, unsubscription and shutdown messages reaching an actor in any state",
  "tests run a handful of message orders; a late response or an early release in an unforeseen state is never sampled",
  [("state writes", "src/rotor/actor_base.cpp: init_start, init_finish, on_start, shutdown_start, shutdown_finish"),
   ("who polls", "src/rotor/plugin/*.cpp callers of init_continue/shutdown_continue")],
  "typestate: who-may-write scan, guard dominance at every call site, per-operation decision tables", None)
p("C02", "Initialization finishes exactly when it was asked for and every plugin agrees",
  "The plugins that take part are asked in order and the first one that is not ready stops the round; initialization finishes exactly when none objects; one that agreed is not asked again. "
  "The initialization request is remembered whenever it arrives and is answered exactly once, and initialization is never completed before the request has arrived. "
  "Pending links, subscriptions, names, children or held resources delay it.",
  [H, S], "every interleaving of readiness events with the initialization request",
  "the tests fix one order of arrival per plugin combination",
  [("poll", "src/rotor/actor_base.cpp: init_continue, init_finish"), ("request", "src/rotor/plugin/init_shutdown.cpp: on_init")], FLOW)
p("C03", "Shutdown finishes only after every plugin agreed, and is confirmed exactly once",
  "During shutdown the plugins are asked in reverse order and the first that still has work stops the round; one that agreed is not asked again. "
  "When none objects, all timers and outstanding requests of the actor are cancelled, a requested shutdown is confirmed exactly once and the actor is shut down. "
  "Linked clients, children, held resources and discoveries in flight delay it.",
  [H, S, F], "every order in which plugins complete their shutdown work, incl. failures",
  "each test shuts down one fixed composition of plugins",
  [("poll", "src/rotor/actor_base.cpp: shutdown_continue, shutdown_finish"), ("request", "src/rotor/plugin/init_shutdown.cpp")], FLOW)
p("C04", "The start trigger starts an initialized actor exactly once",
  "When the start trigger arrives at an initialized actor, the plugins' start hooks run last plugin to first, each at most once ever, and the actor becomes operational; in any other state the trigger has no effect. "
  "Only the owning supervisor sends start triggers.",
  [H, S], "every state in which the (possibly duplicated, late) start trigger may arrive", "tests send the trigger only when it is expected",
  [("start", "src/rotor/plugin/starter.cpp: on_start, handle_start"), ("start message", "src/rotor/plugin/child_manager.cpp")], FLOW)
p("C05", "Shutdown requests are routed to the parent and the first shutdown reason wins",
  "Asking an actor to shut down sends one shutdown trigger, with the given or a normal reason, to its supervisor (a root supervisor: to itself), and nothing once shutdown has begun. "
  "The first recorded shutdown reason is never overwritten, and it is recorded before shutdown starts.",
  [H, S], "every sequence of shutdown requests with different reasons in every state", "tests trigger a single shutdown and read back one reason",
  [("trigger", "src/rotor/actor_base.cpp: do_shutdown; src/rotor/supervisor.cpp: do_shutdown"), ("reason", "src/rotor/actor_base.cpp: assign_shutdown_reason")], FLOW + "; " + WHO)
p("C06", "Failure escalation and supervisor auto-shutdown fire exactly when configured",
  "When an actor that no spawner manages starts to shut down, its supervisor is told to shut down with an escalation error exactly if escalation is configured and the root of the reason is a failure, "
  "and with a child-down error exactly if auto-shutdown of the supervisor is configured; spawned actors do neither. Both options arrive unchanged from the configuration.",
  [C, F], "all option combinations, reasons and spawn modes", "tests cover a few of the combinations",
  [("escalation", "src/rotor/actor_base.cpp: shutdown_start"), ("options", "src/rotor/actor_base.cpp: constructor")], FLOW)
p("C07", "Plugins are activated in order and deactivated in reverse, each completely",
  "Activating an actor activates every plugin in order; deactivation visits every still active plugin in reverse order. "
  "A plugin is deactivated only once its last own subscription is gone, and a failed activation deactivates all plugins. "
  "A plugin reports its activation once and is found by its own identity.",
  [H, C], "every plugin list and every order of subscription confirmations", "tests use the default plugin list and one order of confirmations",
  [("activation", "src/rotor/actor_base.cpp: activate_plugins, commit_plugin_activation, deactivate_plugins"), ("base plugin", "src/rotor/plugin/plugin_base.cpp")], FLOW)
p("C08", "Messages are delivered in send order, none lost or duplicated",
  "Every message put into a locality's queue is taken out exactly once, in first-in first-out order, and the delivery loop ends only when the queue is empty. "
  "Messages for other localities are handed to the destination's supervisor exactly once; messages sent before a supervisor joins its leader's queue keep their order.",
  [H, S], "any sequence of sends, including sends made by handlers while the queue is being drained", "tests check single deliveries, not arbitrary interleavings of send and drain",
  [("queue", "include/rotor/supervisor.h: put, uplift_last_message"), ("delivery loop", "src/rotor/plugin/delivery.cpp: process"), ("join", "src/rotor/plugin/locality.cpp")], FLOW)
p("C09", "A message reaches exactly the handlers subscribed for its type and address",
  "A message addressed inside the locality is offered to every handler currently subscribed for exactly its type and address, handlers of the same supervisor directly and all others through their own supervisor, and to no one else. "
  "A handler unsubscribed before delivery does not get it, and undeliverable messages are dropped without side effects.",
  [H, I, S], "all message types, addresses and subscription tables", "tests use small fixed subscription tables",
  [("delivery", "src/rotor/plugin/delivery.cpp: local_delivery"), ("lookup", "src/rotor/subscription.cpp: get_recipients")], FLOW)
p("C10", "A handler runs only in the thread of its own actor's locality",
  "A message for a handler living in another locality is wrapped and sent to that actor's supervisor, never called in place; the wrapped call is made only while the handler is still alive and subscribed. "
  "The wrapper keeps the handler and the original message alive until the call.",
  [S, H], "every placement of subscriber, address and sender over localities", "tests place actors in at most a few localities and cannot observe the absence of in-place calls for all placements",
  [("remote call", "include/rotor/subscription.h; src/rotor/subscription.cpp; src/rotor/supervisor.cpp / plugin/delivery.cpp"), ("forward", "src/rotor/plugin/foreigners_support.cpp: on_call")], FLOW)
p("C11", "The subscription table mirrors the live subscriptions exactly",
  "Materializing a subscription registers its handler once under its message type and address, split by whether handler and address are internal; removing it takes out exactly that handler and leaves others untouched. "
  "An address owned by the supervisor itself is tracked, and no entry refers to a handler whose subscription is gone.",
  [H, I], "any sequence of subscriptions and removals", "tests add and remove a few subscriptions",
  [("table", "src/rotor/subscription.cpp: materialize, forget"), ("info", "src/rotor/subscription_point.cpp")], FLOW)
p("C12", "Subscribing and unsubscribing are confirmed once to everyone concerned",
  "Subscribing yields exactly one confirmation to the subscriber, at the address's own supervisor or through it when it is foreign. "
  "Unsubscribing removes the handler and informs the subscriber exactly once, and the supervisor owning a foreign address is told to release the subscription. "
  "Every plugin that still waits for confirmations learns of each, one that needs no more does not. "
  "When an actor shuts down, all its remaining subscriptions are removed.",
  [H, S], "all combinations of local and foreign handler, address and owner, in any order", "tests exercise local subscriptions and one foreign case",
  [("subscribe", "src/rotor/supervisor.cpp: subscribe"), ("lifetime", "src/rotor/plugin/lifetime.cpp"), ("foreign", "src/rotor/plugin/foreigners_support.cpp")], FLOW)
p("C13", "A request gets exactly one outcome: one response, or one timeout or cancellation",
  "Each request is tracked under a fresh identifier from sending until its outcome; the first response ends the tracking and stops its timer, and a response for an unknown or finished request is dropped. "
  "A request that is discarded or times out can never be answered afterwards.",
  [H, S], "all interleavings of response, timeout, cancellation and shutdown for any set of requests", "tests sample one order per outcome",
  [("requests", "include/rotor/request.hpp; include/rotor/supervisor.h: subscribe/do_request"), ("tracking", "src/rotor/supervisor.cpp: discard_request, on_request_trigger")], FLOW)
p("C14", "A request that times out yields an error response to its requester",
  "Sending a request with a timeout arms a timer for that request with exactly that timeout; when it fires first, the requester receives a response carrying a timeout error and the request is forgotten; when the timer is cancelled, because the answer came or the actor is done, no such response is sent. "
  "The response reaches the requester's own reply address.",
  [H, F], "all requests in flight and timer outcomes", "tests check a single request",
  [("timer", "src/rotor/actor_base.cpp / supervisor.cpp: on_request_trigger"), ("builder", "include/rotor/request.hpp")], FLOW)
p("C15", "Actor timers fire or are cancelled exactly once, and never outlive their actor",
  "A started timer invokes its callback exactly once, either as fired or as cancelled, and is forgotten afterwards; a timer the loop reports twice or late has no effect. "
  "Timer identifiers are not reused while active.",
  [H, S], "all sequences of start, cancel, fire and shutdown, also from inside callbacks", "tests use one or two timers",
  [("timers", "src/rotor/actor_base.cpp: start_timer, cancel_timer, on_timer_trigger, assign_timer"), ("handler", "include/rotor/timer_handler.hpp")], FLOW)
p("C16", "Event-loop back ends arm, fire and cancel each timer exactly once",
  "Each back end (asio, libev, fltk, wx, threads) arms a native timer for the requested duration, on expiry reports the timer to its actor once, as fired, and forgets it, and on cancel stops it, reports it once as cancelled and forgets it. "
  "A timer is never reported after it was forgotten, and messages its callback produced are processed (fltk: the loop is woken for it).",
  [H, S, C], "all back ends and orders of arm, expiry and cancel", "loop tests run one or two timers in real time; fltk and wx are barely tested",
  [("asio", "src/rotor/asio/supervisor_asio.cpp"), ("ev", "src/rotor/ev/supervisor_ev.cpp"), ("fltk", "src/rotor/fltk/supervisor_fltk.cpp"), ("wx", "src/rotor/wx/supervisor_wx.cpp"), ("thread", "src/rotor/thread/*.cpp")], FLOW)
p("C17", "Messages from other threads are queued and always wake the receiving loop",
  "A message enqueued from any thread is appended to the inbound queue and the receiving loop is woken afterwards; the loop moves every inbound message, in order, to the locality queue and then processes it. "
  "The supervisor is kept alive while a wake-up is pending (libev: its watcher is stopped at the shutdown); messages left over are released.",
  [S, H], "all interleavings of enqueue and drain", "a lost wake-up needs a particular interleaving",
  [("asio", "src/rotor/asio/supervisor_asio.cpp: enqueue, do_process"), ("ev", "src/rotor/ev/supervisor_ev.cpp"), ("fltk/wx/thread", "src/rotor/{fltk,wx,thread}/*.cpp")], FLOW + "; ordering rule enqueue-before-wake")
p("C18", "A linked server stays up until each of its clients has unlinked",
  "A link request is refused with an error while the server shuts down, answered once the server operates (or at once if the client asks for it), and the client is recorded before it is answered. "
  "On shutdown every confirmed client is asked once to unlink and the server waits until each has answered or failed to answer in time; every client's unlink request and notification removes exactly that client.",
  [H, S, F], "all interleavings of link, start, unlink and shutdown of any set of clients", "tests use one or two clients in a fixed order",
  [("server", "src/rotor/plugin/link_server.cpp")], FLOW)
p("C19", "A linking client waits for its servers, and releases every link on shutdown",
  "A client asks each server once for a link, does not finish initialization while a link is pending, and reports a failed link to its owner with the error, failing initialization. "
  "A server's unlink request is answered at once when the client accepts it, and otherwise only after the client has begun to shut down; on shutdown each operational link is released and the server is notified exactly once.",
  [H, S, F], "all interleavings of link, failure, unlink and shutdown", "tests use one or two servers in a fixed order",
  [("client", "src/rotor/plugin/link_client.cpp")], FLOW)
p("C20", "The registry maps a name to at most one address and answers truthfully",
  "Registering an unknown name succeeds and stores the address; a taken name is refused with an error and the stored address stays. "
  "Discovery returns exactly the stored address or an error, a delayed discovery is answered exactly once when the name appears or dropped when cancelled, and deregistering by name or by address removes exactly those names.",
  [H, I], "all sequences of register, discover, promise, cancel and deregister", "tests run short fixed sequences",
  [("registry actor", "src/rotor/registry.cpp")], FLOW)
p("C21", "Actors register and discover names while initializing and clean up afterwards",
  "Names an actor declared are registered and looked up during its initialization, which waits for all of them and fails with the error if one fails; each discovered address is stored before its consumer is told. "
  "On shutdown registered names are deregistered and promises in flight cancelled, and late answers have no effect.",
  [H, S, F], "all orders of registry answers, link answers, failures and shutdown", "tests answer in one order",
  [("registry client", "src/rotor/plugin/registry.cpp")], FLOW)
p("C22", "Held resources delay initialization and shutdown until released, no longer",
  "An actor that acquired a resource does not finish initialization or shutdown while any resource is held, and releasing the last one resumes whichever is in progress, exactly once. "
  "Counters are per resource: each acquisition adds one, each release removes one.",
  [H, S], "all acquire/release sequences in all states", "tests acquire and release once",
  [("resources", "src/rotor/plugin/resources.cpp")], FLOW)
p("C23", "The restart policy decides respawning from shutdown reason and attempts",
  "A spawned child that terminated is started again according to its policy: always, never, only after failure, only after normal termination, or by the user's decision; not when the attempts are used up or the supervisor shuts down. "
  "Attempts count each spawn, an unlimited budget never runs out, and a refused respawn after failure is escalated exactly when configured.",
  [H, F, C], "all policies, termination reasons and attempt budgets", "tests cover a few policy/reason pairs",
  [("policy", "src/rotor/detail/child_info.cpp: next_spawn, spawn_attempt"), ("use", "src/rotor/plugin/child_manager.cpp")], FLOW)
p("C24", "A spawner creates each instance through the factory, and failures are reported",
  "Every (re)spawn invokes the factory once with the supervisor and the spawner's address; a factory that throws or yields no actor counts as an attempt, and is tried again by timer under the policies that restart failed actors, unless the supervisor still initializes and is to fail with its children, in which case its own initialization fails. "
  "An actor that lived at least the restart period is respawned at once, otherwise when a timer of that period fires; a pending respawn is cancelled when the supervisor shuts down, and nothing is spawned from then on.",
  [H, F, C], "all factory outcomes and restart timings", "tests use one failing factory",
  [("spawner", "src/rotor/spawner.cpp"), ("spawn", "src/rotor/plugin/child_manager.cpp: spawn, on_spawn")], FLOW)
p("C25", "A supervisor initializes its children and applies its policy when one fails",
  "Each created child gets one initialization request with its own timeout; a successful answer is recorded; a failed one fails the supervisor's own initialization with the child's error as cause when it still initializes and its policy is to fail with its children, and otherwise shuts the child down with that error as cause. "
  "A supervisor does not finish initializing while a child that it waits for initializes.",
  [H, F, C], "all child outcomes, policies and supervisor states", "tests cover one failing child per policy",
  [("children", "src/rotor/plugin/child_manager.cpp: create_child, on_create, on_init")], FLOW)
p("C26", "Children start once initialized, or together when start is synchronized",
  "Without start synchronization a child is started as soon as it is initialized; with it, only when the supervisor itself starts, and then every initialized child exactly once. "
  "A child that initializes while its synchronizing supervisor is already operational is started at once.",
  [H, C], "all orders of child and supervisor initialization", "tests use two children in one order",
  [("start", "src/rotor/plugin/child_manager.cpp: on_init, handle_start, init_continue")], FLOW)
p("C27", "A supervisor shuts down each child once, and itself only after all are gone",
  "When a supervisor shuts down, every child that can be is sent exactly one shutdown request with its timeout, and the supervisor ends only after all have confirmed or are known to be gone. "
  "A child's shutdown trigger leads to one request to that child, a failure to confirm is reported to the system, and a child that is gone is removed from all books.",
  [H, S, F], "all orders of child shutdowns, failures and supervisor shutdown", "tests use a few children in one order",
  [("children", "src/rotor/plugin/child_manager.cpp: request_shutdown, on_shutdown_trigger, on_shutdown_confirm, handle_shutdown, remove_child")], FLOW)
p("C28", "Each plugin is offered to the actor's settings, in its documented phases",
  "While a plugin with settings (address, starter, resources, children) is activated it is offered to the actor's configuration once; those that act on initialization (starter, resources, links, registry) are offered once more when the initialization request first reaches them, and not again. "
  "Settings written for one plugin and phase run exactly for that plugin in that phase; no two plugins share an identity.",
  [C, S], "all plugin lists, configurations and repeated rounds of initialization", "tests use few settings in the default plugin list",
  [("offers", "src/rotor/plugin/{address_maker,starter,resources,child_manager,link_client,registry}.cpp: activate, handle_init"), ("selection", "include/rotor/plugin/plugin_base.h: with_casted"), ("identities", "src/rotor/plugin/*.cpp: class_identity, identity()")], FLOW)
p("C29", "Messages, addresses and handlers are owned exactly as long as they are needed",
  "Every reference taken manually is given back exactly once on every path, and moving a message between queues neither leaks nor double-frees it. "
  "Nothing that another party may still use is destroyed early.",
  [H, S], "all delivery paths", "leaks and double releases on rare paths are not sampled by tests",
  [("manual counts", "src/rotor/**: intrusive_ptr_add_ref / release / detach / attach sites")], "ownership: balance of manual reference operations on every path")
p("C30", "An intercepted message reaches its handler only when it is continued",
  "With an intercepting handler the interceptor sees every delivery to it, and the handler's call happens exactly when the interceptor continues; handlers without interceptor are called exactly once per delivery. "
  "Delivery without interceptors is unaffected by whether others are intercepted.",
  [H, PR], "all interceptors and deliveries", "tests intercept a few calls",
  [("intercept", "include/rotor/handler.h; src/rotor/handler.cpp; src/rotor/supervisor.cpp: intercept")], FLOW)
p("C31", "A routed message is delivered, then handed to its route exactly once",
  "A message sent with a post-processing route is delivered to the subscribers of its address and then, once the last of them has seen it, sent on to the route address exactly once, with the same content. "
  "A message without route is released after delivery.",
  [H, S], "all numbers of subscribers, local and foreign", "tests use a few subscribers",
  [("routing", "src/rotor/plugin/delivery.cpp: process; include/rotor/message.h: next_route")], FLOW)
p("C32", "Builders and configurations are validated and reach the actor unchanged",
  "An actor is created only from a valid configuration; an invalid one is reported to the system context with the right error and yields no actor. "
  "Every configured option has the effect of its name on exactly the corresponding setting.",
  [C, I], "all combinations of options and omissions", "tests set a few options per actor",
  [("builders", "include/rotor/actor_config.h, supervisor_config.h, */supervisor_config_*.h"), ("creation", "include/rotor/supervisor.h, system_context.h")], FLOW)
p("C33", "Every error code has its own category, value and message",
  "Each error and shutdown code converts to an error value that carries exactly that code and its category, success is the only falsy one, and each code has its own documented text. "
  "No code shares the text of another.",
  [I], "all codes", "tests check only some of the codes",
  [("codes", "include/rotor/error_code.h; src/rotor/error_code.cpp")], "table extraction from switch statements and make_error_code bodies")
p("C34", "Message stringification covers the system messages and never changes them",
  "The default stringifier describes each system message by its own type and with its own fields, unknown types by a fallback, and dumping only happens at or above the configured level. "
  "Stringification has no effect on the message or the delivery.",
  [I, C], "all message kinds", "tests print a subset",
  [("stringifier", "src/rotor/misc/default_stringifier.cpp"), ("levels", "src/rotor/plugin/delivery.cpp: inspected_local_delivery_t")], FLOW)
p("C35", "Asio forwarders run handlers in the strand and process messages afterwards",
  "A completion forwarded from asio is executed through the supervisor's strand, calls the actor's success handler exactly when there is no error and the failure handler otherwise, with all completion arguments, and afterwards processes the messages it produced. "
  "The actor is kept alive until then.",
  [S, I], "all completion outcomes and forwarder arities", "tests run a few completions",
  [("forwarder", "include/rotor/asio/forwarder.hpp")], FLOW)
p("C36", "Shutdown can be asked for from outside: by flag, or thread-safely by call",
  "A supervisor configured with a shutdown flag polls it periodically, as configured, from its start on, shuts down once it is set, and stops polling then. "
  "The thread-safe shutdown call only hands a trigger to the loop and never touches the supervisor's state from the calling thread.",
  [S, C], "all moments at which the flag may be set or the call made", "tests set the flag at one moment",
  [("flag", "src/rotor/supervisor.cpp: on_start, on_shutdown_check_timer, shutdown"), ("back ends", "src/rotor/*/supervisor_*.cpp: shutdown, shutdown_finish")], FLOW)
p("C37", "Error values keep context, code, cause and request, and find their root",
  "An extended error carries the context and code of its creator, an unchanged reference to its cause and to the failed request, and its root is the last error of the chain. "
  "Its text lists the whole chain from effect to cause.",
  [I, H], "all chains", "tests use chains of at most two",
  [("errors", "include/rotor/extended_error.h; src/rotor/extended_error.cpp; src/rotor/actor_base.cpp: make_error")], FLOW)
p("C38", "Supervisors of one event loop share one queue; others stay separate",
  "An address belongs to the locality of the supervisor that created it; a child supervisor with the same locality as its parent joins the parent's locality, queue and registries, any other leads its own. "
  "Every actor's addresses carry its supervisor and that supervisor's locality.",
  [C], "all supervisor trees and locality assignments", "tests use two or three supervisors",
  [("locality", "src/rotor/plugin/locality.cpp; src/rotor/plugin/address_maker.cpp; src/rotor/supervisor.cpp: make_address")], FLOW)
p("C39", "A system context has at most one root supervisor, initialized before use",
  "Creating a second root supervisor in one context is refused with an error and leaves the first unaffected. "
  "The first is stored in its context and initialized before it is handed out: its plugins are activated, it asks for its own initialization, creates its registry when it is configured to (a nested supervisor inherits its parent's otherwise), and the context, when destroyed, releases whatever is still queued.",
  [H, C], "all creation sequences", "tests create one root per context",
  [("context", "include/rotor/system_context.h; include/rotor/supervisor.h: create_supervisor; src/rotor/system_context.cpp")], FLOW)
p("C40", "The thread loop ends only when shut down and sleeps only to the next deadline",
  "The loop processes queued messages, fires due timers in order of deadline and otherwise waits for an inbound message or the next deadline; it ends only once the root supervisor is shut down, and all its own messages are processed. "
  "Waiting starts only after the inbound queue was seen empty under the lock.",
  [S, H], "all interleavings of inbound messages and deadlines", "tests run short real-time scenarios",
  [("loop", "src/rotor/thread/system_context_thread.cpp")], FLOW)
p("C41", "Only valid handlers can be subscribed, and they call what was declared",
  "A program that subscribes a method of a class that is neither actor nor plugin, a method that may throw or whose parameter is not one message, that sends a payload from arguments it cannot be made of, or replies to a non-request, does not compile; correct ones compile. "
  "A handler is selected exactly for the message type it was declared with, and calls the declared method of its own actor or plugin with the message itself; each message type has one identity.",
  [PR], "all programs", "tests contain only programs that compile",
  [("handlers", "include/rotor/handler.h, actor_base.h")], "type-level witnesses: compile-pass and compile-fail programs against the current headers")
p("C42", "An actor keeps the identity it was given, otherwise gets a generated one",
  "After an actor's settings ran and before it begins to initialize, an actor whose identity is empty gets a generated one, and a given identity is never replaced. "
  "The identity set is the given name, followed by the actor's address if that was asked for.",
  [I, C], "all names and configurations", "tests give one name or none",
  [("identity", "src/rotor/plugin/address_maker.cpp: activate, set_identity, generate_identity")], FLOW + "; " + WHO)
p("C50", "Localities are free of data races in the C++ memory model sense",
  "State shared between localities is accessed only under synchronization; reference counts of messages shared between threads are decided atomically.",
  [S], "all thread schedules", "tests run few schedules", [("queues", "src/rotor/thread, asio, ev, fltk, wx"), ("routed messages", "src/rotor/plugin/delivery.cpp")],
  na="Which objects are shared between threads is decided by user code at run time (any message, address or handler may be handed over), so a sound static shared/unshared partition is not available; the parts with a syntactic protocol (inbound queues, wake-ups) are C17/C36/C40.")
p("C51", "Timeouts and restart periods are kept to within the event loop's resolution",
  "A timer never fires early and fires within bounded delay after its deadline while the loop is idle.",
  [S, I], "all loads and clock behaviours", "tests sleep and compare", [("back ends", "src/rotor/*/supervisor_*.cpp")],
  na="Quantifies over real time and the third-party loop's scheduling, which no argument over this source can bound.")
p("C52", "User payloads shared by several receivers are not modified after sending",
  "A message delivered to several receivers is seen by each as it was sent.",
  [PR], "all user programs", "tests are well behaved", [("messages", "include/rotor/message.h")],
  na="Handlers receive payloads by non-const reference by design; whether user code writes to them is outside this repository's source.")
