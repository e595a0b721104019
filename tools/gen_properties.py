#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the table stays readable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=False):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=observe, hook_needed=hook or None)))

prop("C01", "Accepted messages are handled exactly once, in order, one at a time",
 "Every message whose send succeeded is handled exactly once by an actor that keeps running, and a message whose send failed is never handled. If one send to an actor completed before another began, the first message is handled first, whichever request kinds (ask, tell, recipient; waiting, try, enqueued) and mailbox kind are used. An actor never has two handlers in progress at once, even when handlers suspend.",
 ["schedules", "histories", "configurations"],
 "every set of concurrent senders, every interleaving of their sends with the actor's handlers, every mixture of request kinds, every mailbox kind and capacity",
 "The unit tests send a message or two from one task to an idle actor; ordering, duplication and overlap depend on interleavings of several senders with suspended handlers and on a full mailbox.",
 ["src/actor/spawn.rs", "src/actor/kind.rs", "src/mailbox.rs", "src/request/ask.rs", "src/request/tell.rs"],
 [("mailbox receive loop", "src/actor/spawn.rs: recv_mailbox_loop"), ("message dispatch", "src/actor/kind.rs: handle_message"), ("send paths", "src/request/{ask,tell}.rs")],
 ["handler entry and exit", "result of every send call"])

prop("C02", "Every ask resolves exactly once, with its own outcome",
 "An ask completes with the value or error its own message's handler produced, and never with the outcome of another message. If the actor panics, stops or is killed before replying, the ask completes with the actor-stopped error; if the actor was already gone, it completes with the not-running error carrying the original message. No ask or tell ever hangs on a stopped actor or panics in the caller, whichever way the request is made.",
 ["inputs", "schedules", "fault_sequences"],
 "every mixture of replies, handler errors, handler panics, stops and kills, at every point relative to the pending requests, for every way of asking",
 "Tests ask one healthy actor and one stopped actor; the pairing of replies with requests and the classification of failures depend on which message the actor dies in and on what is still queued.",
 ["src/request/ask.rs", "src/request/tell.rs", "src/reply.rs", "src/error.rs", "src/message.rs"],
 [("reply channel", "src/request/ask.rs: send / enqueue / try_send"), ("reply dispatch", "src/message.rs: handle_dyn"), ("error conversion", "src/error.rs: From impls")],
 ["result of every ask and tell"])

prop("C03", "Bounded mailboxes apply exact backpressure",
 "A bounded mailbox holds exactly its capacity: a non-waiting send fails with the mailbox-full error, returning the message untouched, exactly when that many signals are queued and not yet taken by the actor, and succeeds otherwise. A waiting send on a full mailbox completes once the actor makes room, and waiting senders are admitted in the order they started waiting. An unbounded mailbox never rejects or delays a message for lack of room.",
 ["inputs", "histories", "configurations"],
 "every capacity, every sequence of non-waiting and waiting sends, handler completions and stop signals",
 "One unit test fills one mailbox; exactness at every fill level and admission order need sequences of sends and receives compared with a model of the queue.",
 ["src/mailbox.rs", "src/request/tell.rs", "src/request/ask.rs", "src/error.rs"],
 [("bounded channel", "src/mailbox.rs: bounded / MailboxSender"), ("non-waiting sends", "src/request: try_send, try_enqueue, try_forward")],
 ["result of each send at a known queue length"])

prop("C04", "Mailbox and reply timeouts fire exactly when their condition is missed",
 "A request with a mailbox timeout fails with the timeout error carrying the message if and only if the mailbox had no room for that long, and then the message is never handled. An ask with a reply timeout fails with a timeout error without the message if and only if no reply arrived within that time of being enqueued; the message is still handled. A timeout never affects the actor or other requests, and a request without a timeout never times out.",
 ["inputs", "schedules"],
 "every combination of mailbox timeout, reply timeout, handler duration and queue occupancy",
 "Tests use one pair of fixed durations; the condition is a relation between three durations and the queue's occupancy, and needs a clock the test controls.",
 ["src/request/ask.rs", "src/request/tell.rs", "src/request.rs", "src/error.rs"],
 [("timeouts", "src/request/ask.rs: send, enqueue; src/request/tell.rs: send"), ("option conversion", "src/request.rs")],
 ["result and virtual completion time of each request"])

prop("C05", "A graceful stop handles everything queued before it and nothing after",
 "When an actor is asked to stop gracefully, every message accepted before the stop signal is handled before the actor stops, and no message accepted after it is ever handled. Requests left behind are answered with an error rather than left pending, and the stop reason is normal. Repeating the stop, or stopping an actor that has already stopped, is harmless.",
 ["histories", "schedules"],
 "every placement of stop signals among sends from several tasks, in every state of the actor (starting, idle, handling), for every mailbox",
 "Tests stop idle actors; what must be drained and what must be dropped depends on the position of the stop signal among queued messages and startup buffering.",
 ["src/actor/actor_ref.rs", "src/actor/kind.rs", "src/actor/spawn.rs", "src/mailbox.rs"],
 [("stop signal", "src/actor/actor_ref.rs: stop_gracefully"), ("stop handling", "src/actor/kind.rs: handle_stop")],
 ["handled messages", "ask results", "stop reason"])

prop("C06", "A kill takes effect at once and still runs the stop hook",
 "Killing an actor aborts the handler in progress at its current suspension point and drops all queued messages, so nothing is handled after the kill takes effect, and every pending ask completes with an error. The stop hook still runs exactly once, with the killed reason and the state left by the aborted handler. Killing again, before start or after stop, has no further effect.",
 ["crash_points", "schedules", "histories"],
 "every suspension point of every handler and every queue content at which the kill lands",
 "No test kills an actor in the middle of a handler with a queue behind it; the property quantifies over the point where the kill lands.",
 ["src/actor/actor_ref.rs", "src/actor/spawn.rs", "src/actor/kind.rs"],
 [("abortable loop", "src/actor/spawn.rs: run_actor_lifecycle"), ("kill", "src/actor/actor_ref.rs: kill")],
 ["handler progress", "hook calls", "ask results"])

prop("C07", "Lifecycle hooks run in order, at most once, with the true stop reason",
 "Every spawned actor runs its start hook first, then handles messages only if the start hook succeeded, then runs its stop hook exactly once and nothing of it runs afterwards. The reason given to the stop hook, returned with the final actor state, and given to linked actors is the same and names the actual cause: normal, killed, panicked (with the original error) or a link's death. A failing start, message, panic, link or stop hook leads to an orderly stop and never to a silently lost actor.",
 ["histories", "fault_sequences"],
 "every sequence of messages, failures in any hook (error or panic), stops, kills and link deaths",
 "Tests exercise one failing hook at a time; the order and the reason are relations over whole histories with several competing causes.",
 ["src/actor/spawn.rs", "src/actor/kind.rs", "src/actor.rs", "src/error.rs"],
 [("lifecycle", "src/actor/spawn.rs: run_actor_lifecycle"), ("shutdown decision", "src/actor/kind.rs: on_shutdown")],
 ["hook call log", "join result", "link notifications"])

prop("C08", "Startup: nothing external is handled before the actor's own start messages",
 "While the start hook runs no message is handled. Messages the actor sends to itself in its start hook are handled, in order, before any message from outside, even one that was accepted earlier. No message is lost or reordered by startup buffering, whatever the mailbox capacity and however full it is, and even if handlers fail and the actor recovers while the buffered messages are being handled.",
 ["schedules", "histories", "configurations"],
 "every number and timing of internal and external sends during startup, every mailbox capacity, failing handlers during the drain",
 "One test covers this order in a roomy mailbox; the guarantee has to survive full mailboxes, stops, kills and recovered panics that land during startup.",
 ["src/actor/spawn.rs", "src/actor/kind.rs", "src/mailbox.rs"],
 [("startup buffer", "src/actor/kind.rs: handle_message / handle_startup_finished"), ("startup finished signal", "src/actor/spawn.rs; src/mailbox.rs: signal_startup_finished")],
 ["handled messages and hook log"])

prop("C09", "Waiting for startup and shutdown always completes, truthfully",
 "Waiting for startup completes as soon as the start hook has completed and never before, and its result variant returns the start hook's error. Waiting for shutdown completes once the actor has stopped, after the stop hook, and never before, and its result variant returns the stop hook's error. Any number of waiters on any clone, registered before or after the event, all complete and agree, however the actor started or ended.",
 ["schedules", "fault_sequences", "configurations"],
 "every moment a waiter can arrive, every way of starting, failing and stopping, every mailbox fill level",
 "Tests wait once on a healthy actor; missed wake-ups only show for particular arrival moments and endings.",
 ["src/actor/actor_ref.rs", "src/actor/spawn.rs"],
 [("startup semaphore", "src/actor/spawn.rs"), ("mailbox closed", "src/actor/actor_ref.rs: wait_for_shutdown")],
 ["completion and order of waiters against the hook log"])

prop("C10", "Panics and unhandled errors are contained and routed to the panic hook",
 "A handler that panics, or that returns an error to a tell, calls the panic hook exactly once with that error and affects neither other actors nor the process; an error returned to an ask goes to the caller instead and is not a panic. If the hook says continue, the actor keeps its state and handles all remaining messages; if it says stop, the actor stops with the reason the hook gave, handling nothing more. A panic in any hook stops the actor in the orderly way.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of succeeding, failing and panicking messages (with string and non-string payloads), tells and asks, and every decision of the panic hook",
 "Tests panic once and stop; recovery, payloads, and loss of what is queued behind the failing message are untested.",
 ["src/actor/kind.rs", "src/message.rs", "src/error.rs", "src/actor/spawn.rs"],
 [("catch_unwind", "src/actor/kind.rs: handle_message"), ("unhandled error", "src/message.rs: handle_dyn"), ("decision", "src/actor/kind.rs: on_shutdown")],
 ["panic hook calls", "later messages", "stop reason"])

prop("C11", "Each linked actor learns of a death exactly once, with id and reason",
 "When an actor stops for any reason, every living actor linked to it at that moment gets exactly one link-died notification, carrying the dead actor's id and its stop reason, and no other actor gets one. Links are symmetric, idempotent and removed by unlinking from either side, and an actor linked before it is spawned is covered from its first moment. By default a linked actor survives a normal stop and stops with a link-died reason on any other.",
 ["histories", "fault_sequences"],
 "every graph of links built and torn down by any sequence of link and unlink calls, every order and cause of deaths",
 "Tests link two actors once; the property is about arbitrary link graphs and cascades of deaths.",
 ["src/actor/actor_ref.rs", "src/actor/spawn.rs", "src/actor/kind.rs", "src/actor.rs"],
 [("link table", "src/actor/actor_ref.rs: link / unlink"), ("notification", "src/actor/spawn.rs"), ("handling", "src/actor/kind.rs: handle_link_died")],
 ["link-died hook log of every actor", "stop reasons"],
 state=[("links", "per actor map of linked actors to their signal mailboxes")])

prop("C12", "Linking, unlinking and dying never deadlock",
 "Any number of tasks and threads may link, unlink and stop the same actors concurrently, from either side and through the async or the blocking calls, and every one of those calls and shutdowns completes. Actors that are linked to each other and stop at the same time all finish stopping even if their mailboxes are full. Once the calls are over, the links are as the last of them left them, seen from both sides.",
 ["schedules", "configurations"],
 "every interleaving of link, unlink and shutdown over shared actors, any mailbox capacity and fill level",
 "No test links concurrently from both sides; a lock-order deadlock needs two threads to meet in a window of a few instructions.",
 ["src/actor/actor_ref.rs", "src/actor/spawn.rs"],
 [("link locks", "src/actor/actor_ref.rs: link, unlink, blocking_link, blocking_unlink"), ("notification while stopping", "src/actor/spawn.rs")],
 ["completion of every call", "notifications after the race"])

prop("C13", "An actor lives exactly as long as a strong reference does",
 "An actor stops normally, after handling what is queued, once every strong reference to it (actor refs, recipients) is gone, and never before while nothing else stops it. Weak references never keep it alive, upgrade exactly while a strong reference exists and to the same actor. The strong and weak counts reported equal the number of live handles, through any sequence of clone, downgrade, upgrade, conversion and drop.",
 ["histories"],
 "every sequence of clone, downgrade, upgrade, recipient conversion and drop operations",
 "Tests hold a reference for as long as the test runs; the property is about the moment the last of many handles of four kinds disappears.",
 ["src/actor/actor_ref.rs", "src/actor/spawn.rs", "src/mailbox.rs"],
 [("strong and weak senders", "src/mailbox.rs"), ("handles", "src/actor/actor_ref.rs: ActorRef, WeakActorRef, Recipient, WeakRecipient"), ("downgrade in lifecycle", "src/actor/spawn.rs")],
 ["counts, upgrade results, stop reason"])

prop("C14", "Forwarded and delegated replies reach the original requester",
 "Forwarding a message hands the original request to the other actor: the requester gets that actor's reply or error, exactly once, through any number of hops and whether or not the forwarding actors are still alive. If forwarding fails, the requester gets the failure with the message, the reply channel is still usable, and nobody panics. A delegated reply, sent later from anywhere, reaches the requester, and a told message has no reply channel.",
 ["inputs", "histories", "fault_sequences"],
 "every chain of forwarding actors, every kind of forward (waiting, try), every state of each hop (alive, full, stopped), every outcome of the last handler",
 "Tests forward once to a healthy actor; failure of a hop and chains of hops exercise type-erased conversions no test reaches.",
 ["src/message.rs", "src/reply.rs", "src/request/ask.rs", "src/error.rs"],
 [("forward", "src/message.rs: forward, try_forward"), ("error downcast", "src/reply.rs: ForwardedReply"), ("delegation", "src/message.rs: reply_sender, reply")],
 ["result of the original request"])

prop("C15", "An attached stream is delivered completely, in order, between its markers",
 "Attaching a stream delivers the start marker, then every item in stream order, then the finish marker, each exactly once, however items are delayed and however small the mailbox. If the actor stops, delivery ends and the stream task returns the undelivered message or the rest of the stream instead of hanging or panicking. Several attached streams and ordinary messages may interleave, but each stream keeps its own order.",
 ["inputs", "schedules"],
 "every set of streams with every item count and delay pattern, every mailbox capacity, every moment the actor stops",
 "The only test attaches one immediate stream; delays, backpressure, several streams and early stops are not reached.",
 ["src/actor/actor_ref.rs", "src/message.rs"],
 [("stream task", "src/actor/actor_ref.rs: attach_stream")],
 ["messages handled", "stream task result"])

prop("C16", "The local registry is a map from names to actors, typed on lookup",
 "At every moment the local registry behaves as a map from names to actors: registering a name, whether free or taken, makes exactly the newly registered actor the one found under that name and tells whether it replaced another, and no other name is affected. A lookup returns the actor registered under exactly that name if it has the requested type, an error if it has another, and nothing if the name is free. Removal frees exactly that name, a failed lookup changes nothing, and concurrent use behaves like some sequential order of the same calls.",
 ["histories", "schedules", "inputs"],
 "every sequence and interleaving of register, lookup, removal and enumeration with arbitrary names and actor types",
 "Tests register and look up one name; agreement with a map needs long sequences over colliding names and mixed actor types.",
 ["src/registry.rs", "src/actor/actor_ref.rs"],
 [("registry", "src/registry.rs: ActorRegistry"), ("register and lookup", "src/actor/actor_ref.rs")],
 ["registry results against a map"])

prop("C17", "Actor ids are unique, and their equality, hash and encodings agree",
 "No two actors of a process ever share an id, however concurrently they are created, and every handle to an actor reports the same id. Equal ids hash equally, and encoding an id to bytes or through any serialization format and decoding it gives back an equal id with the same parts. Decoding arbitrary bytes never panics: it gives an error, or an id that survives being encoded and decoded again.",
 ["inputs", "schedules"],
 "every id (sequence number and peer), every byte string, several serialization formats, any number of concurrently created actors",
 "Unit tests check a handful of ids; the laws quantify over all ids and all byte strings.",
 ["src/actor/id.rs"],
 [("encoding", "src/actor/id.rs: to_bytes, from_bytes, serde impls"), ("generation", "src/actor/id.rs: generate")],
 ["ids, their bytes, hashes and decoded forms"])

prop("C18", "Error values convert without losing or inventing information",
 "Mapping, boxing, downcasting and flattening a send error preserve its variant and carried message or handler error, a downcast to the wrong type gives the error back unchanged, and unwrapping yields exactly what is carried. A panic error yields its original payload to the matching type and nothing to another, and a string payload to string access however it was raised. Error values and stop reasons that are serialized come back with the same meaning.",
 ["inputs"],
 "every send error variant with every payload type, every chain of conversions, every panic payload",
 "No test covers the conversions; they are laws over all variants and payloads, on which every remote and forwarded path relies.",
 ["src/error.rs"],
 [("SendError", "src/error.rs: map_msg, map_err, boxed, try_downcast, flatten"), ("PanicError", "src/error.rs: with, with_downcast_ref, with_str")],
 ["converted values"])

prop("C19", "An actor pool spreads work over live workers and survives their deaths",
 "A message dispatched to a pool is handled by exactly one worker and its requester gets that worker's reply or error; a broadcast is handled exactly once by every worker. A dispatched message goes to a worker with the fewest unfinished dispatched messages. Workers that stop for any reason are replaced, so the pool keeps its size and keeps serving, and a dying worker never stops the pool or panics a caller.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of dispatches, broadcasts and worker deaths, every pool size, worker mailbox and factory kind",
 "The module has no tests for replacement or errors; both need workers to die at particular points of a dispatch sequence.",
 ["actors/src/pool.rs"],
 [("dispatch", "actors/src/pool.rs: Dispatch"), ("replacement", "actors/src/pool.rs: on_link_died"), ("broadcast", "actors/src/pool.rs: Broadcast")],
 ["worker that handled each message", "replies"])

prop("C20", "A broker delivers each publication to exactly the matching subscriptions",
 "A published message is delivered once per subscription whose pattern matches the topic (wildcards do not cross separators, matching is case sensitive) and to nobody else, with every delivery strategy as long as recipients have room. Publications from one publisher reach a recipient in order under the non-spawning strategies; unsubscribing from one pattern or all stops exactly those deliveries. Stopped recipients are dropped without disturbing others; a full one is skipped, waited for or timed out as the strategy says.",
 ["histories", "inputs", "configurations"],
 "every sequence of subscribe, unsubscribe, publish and recipient death, every pattern and topic over a small alphabet, every delivery strategy",
 "Tests publish one message to one subscriber; matching and bookkeeping are relations over sequences and pairs of patterns and topics.",
 ["actors/src/broker.rs", "actors/src/lib.rs"],
 [("publish", "actors/src/broker.rs: Publish"), ("bookkeeping", "actors/src/broker.rs: Subscribe, Unsubscribe")],
 ["messages received by each recipient"])

prop("C21", "A message bus delivers by type to exactly the registered actors",
 "A message published on the bus is delivered once per registration for exactly its type, and never to an actor registered only for other types. Unregistering stops deliveries of that type alone; stopped actors are dropped without disturbing the others; full ones are skipped, waited for or timed out as the delivery strategy says. Under the non-spawning strategies one publisher's messages arrive in order.",
 ["histories", "configurations"],
 "every sequence of register, unregister, publish and actor death over several message types, every delivery strategy",
 "Tests cover one registration; type routing and bookkeeping are relations over sequences.",
 ["actors/src/message_bus.rs", "actors/src/lib.rs"],
 [("publish", "actors/src/message_bus.rs: Publish"), ("bookkeeping", "actors/src/message_bus.rs: Register, Unregister")],
 ["messages received by each actor"])

prop("C22", "A pubsub delivers each message to every subscriber whose filter accepts it",
 "A published message is delivered exactly once to every current subscriber whose filter accepts it and to nobody else, in publication order. Subscribing an actor again replaces its filter. Subscribers that have stopped are dropped at the next publication without affecting the others, whether the pubsub is used directly or as an actor.",
 ["histories", "inputs"],
 "every sequence of subscribe, filtered subscribe, publish and subscriber death",
 "Tests cover one subscriber; the relation is over sequences with several filters and deaths.",
 ["actors/src/pubsub.rs"],
 [("publish", "actors/src/pubsub.rs: publish"), ("subscribe", "actors/src/pubsub.rs: subscribe, subscribe_filter")],
 ["messages received by each subscriber"])

prop("C23", "Customised message and receive hooks see every message and lose none",
 "An actor that overrides the message hook has every message passed through it exactly once before being handled, can defer messages and handle them later with the right reply going to the right requester, and errors it returns are treated as message errors. An actor that overrides the receive hook handles exactly the signals that hook returns, in that order, including stop. Neither customisation changes any other guarantee about delivery, stop, kill or startup.",
 ["histories", "programs"],
 "every deferral pattern, every mixture of mailbox and injected signals, with stops, kills and failures",
 "No test overrides either hook.",
 ["src/actor.rs", "src/actor/kind.rs", "src/message.rs"],
 [("message hook", "src/actor.rs: on_message; src/actor/kind.rs: handle_message"), ("receive hook", "src/actor.rs: next; src/actor/kind.rs: next")],
 ["hook log, handled messages, ask results"])

prop("C24", "Macro-generated code behaves like the hand-written equivalent",
 "Messages declared with the attribute macro carry exactly the arguments of the method, call it with them and reply with its result, for any argument values, generics, return types (including results and none) and both async and sync methods. Derived actors and replies behave like the plain implementations, and every value type accepted as a reply arrives unchanged. Several generated messages on one actor do not affect each other.",
 ["inputs", "programs"],
 "every argument value of a family of macro-declared actors covering the supported shapes, compared with hand-written twins over generated call sequences",
 "Tests expand the macros but do not compare behaviour over argument values and call sequences.",
 ["macros/src/messages.rs", "macros/src/derive_actor.rs", "macros/src/derive_reply.rs", "src/reply.rs"],
 [("messages macro", "macros/src/messages.rs"), ("derives", "macros/src/derive_actor.rs, macros/src/derive_reply.rs"), ("reply impls", "src/reply.rs")],
 ["state and replies of generated and hand-written actors"])

prop("C25", "Remote requests behave like local ones, and bad input only yields errors",
 "A request to an actor on another node has the outcome the same request would have locally: the handler's reply or error, timeouts, a full mailbox or a stopped actor each reported as such, each message handled at most once and in the order its requester sent them one after another. Unknown actors, unknown messages, actors of another type and undecodable payloads give the matching error to the requester. No request or response from the network can stop the node.",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of remote asks and tells with arbitrary payloads, handler outcomes, timeouts and actor states, and arbitrary malformed requests",
 "There is no automated test of remote messaging.",
 ["src/remote/_internal.rs", "src/remote/swarm.rs", "src/request/ask.rs", "src/request/tell.rs", "macros/src/remote_message.rs"],
 [("remote dispatch", "src/remote/_internal.rs"), ("swarm commands", "src/remote/swarm.rs"), ("request side", "src/request/ask.rs: remote_ask")],
 ["results of remote requests", "handler log"])

prop("C26", "Remote registration makes actors findable, and bad records do no harm",
 "An actor registered under a name on one node can be looked up by that name from every connected node, and the reference found reaches that very actor; an unknown name finds nothing and a name registered with another actor type is reported as a type mismatch. A name is found under the actor it was last registered for, and no longer once it has been unregistered. Registration records survive encoding and decoding unchanged. Malformed or foreign records give an error or nothing and never stop the node.",
 ["inputs", "histories"],
 "every name and actor type, every sequence of registrations, unregistrations and lookups on either node, connected or alone, every byte string as a record",
 "There is no automated test of remote registration.",
 ["src/remote/swarm.rs", "src/remote.rs", "src/actor/actor_ref.rs"],
 [("records", "src/remote/swarm.rs: ActorRegistration"), ("lookup", "src/remote/swarm.rs; src/actor/actor_ref.rs: lookup")],
 ["lookup results", "decoded records"])

prop("C27", "Remote links notify across nodes on death and on disconnection",
 "When a remotely linked actor stops, the actor linked to it on the other node gets exactly one link-died notification with its id and reason; after unlinking it gets none. When the last connection to a node is lost, every actor linked to an actor on that node is notified that the peer disconnected, and no actor is notified while a connection to it remains. Links to actors on other nodes are unaffected.",
 ["histories", "fault_sequences"],
 "every sequence of remote link, unlink, stop and connection loss between two or more nodes",
 "There is no automated test of remote links.",
 ["src/remote/swarm.rs", "src/remote/_internal.rs", "src/actor/spawn.rs", "src/actor/actor_ref.rs"],
 [("remote link table", "src/actor/actor_ref.rs: link_remote"), ("disconnection", "src/remote/swarm.rs: connection closed handling")],
 ["link-died hook log"])

prop("C28", "Every way of running an actor behaves the same",
 "An actor run by spawning a task, spawning a linked task, a dedicated thread, or in the current task behaves identically: same hooks, same handled messages in the same order, same replies and same stop reason for the same history of sends, including messages sent before it runs. Code running inside the actor, and only that, sees the actor as current. The final state and the reason are returned to whoever joins it.",
 ["configurations", "histories"],
 "every history of messages sent before and while the actor runs, for each way of running it",
 "Tests use one way of spawning each; equivalence quantifies over histories.",
 ["src/actor/spawn.rs", "src/actor/actor_ref.rs"],
 [("run, spawn, spawn_in_thread", "src/actor/spawn.rs: PreparedActor"), ("current actor", "src/actor/actor_ref.rs: is_current")],
 ["event logs of twin actors", "join results"])

prop("C29", "The actor error hook hears of every failed start and stop exactly once",
 "The global error hook is called exactly once for every start hook and every stop hook that fails or panics, with that error, whether or not anyone waits for the result, and for nothing else. The hook called is the one most recently set. A failing hook in one actor never suppresses the report for another.",
 ["histories", "fault_sequences"],
 "every population of actors with failing and succeeding hooks, ended in every way, with the error hook replaced in between",
 "One test checks one failure.",
 ["src/error.rs", "src/actor/spawn.rs"],
 [("hook", "src/error.rs: set_actor_error_hook, invoke_actor_error_hook"), ("calls", "src/actor/spawn.rs")],
 ["hook calls"])

prop("C30", "Blocking calls from threads behave like the async calls",
 "The blocking forms of ask, tell, forward, enqueue, link and unlink, used from ordinary threads, have the same effect, result and errors as the async forms for the same history. They return as soon as the condition they wait for holds, and never deadlock or panic, whatever state the actor is in. Messages sent by one thread in sequence are handled in that order.",
 ["histories", "schedules"],
 "every sequence of blocking calls from several threads on actors in every state",
 "Tests use a blocking call or two on an idle actor.",
 ["src/request/ask.rs", "src/request/tell.rs", "src/message.rs", "src/actor/actor_ref.rs"],
 [("blocking sends", "src/request: blocking_send, blocking_enqueue, blocking_forward"), ("blocking links", "src/actor/actor_ref.rs: blocking_link")],
 ["results and handler log"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
