TRUST = "Assumes tokio, proptest and rustc behave as documented; absence of a violation is evidence over the generated cases only."
CLAIMED = {
 "C01": ("stateful property testing of send histories on a virtual clock and on real threads", "Random senders, request kinds, mailboxes and suspending handlers; a history oracle for exactly-once, order and overlap. " + TRUST),
 "C02": ("property testing of request outcomes against a per-message oracle, plus a multi-threaded death race", "Random histories with failing handlers, stops and kills on a virtual clock; askers racing an actor's death on real threads. " + TRUST),
 "C03": ("model-based property testing against an exact queue model", "Random operation sequences compared after every step with a model of queue, waiting calls and the busy handler. " + TRUST),
 "C04": ("model-based property testing on a virtual clock", "An event-driven model predicts the instant and result of every request; generated times cannot tie. " + TRUST),
 "C05": ("stateful property testing of histories with graceful stops, virtual and multi-threaded", "Log positions decide which messages were accepted before and sent after the stop. " + TRUST),
 "C06": ("stateful property testing of histories with kills, virtual and multi-threaded", "On a single thread the instant of a kill is exact, so nothing may follow it; on real threads the end state is checked. " + TRUST),
 "C07": ("property testing of lifecycle histories against hook decisions replayed from the log", "Random hook failures and decisions, deaths of linked actors and causes of stopping; the reason is predicted and compared in all places. " + TRUST),
 "C08": ("stateful property testing of startup histories, virtual and multi-threaded", "Random start hooks sending to themselves, prefilled mailboxes, failing and recovering handlers. " + TRUST),
 "C09": ("property testing of waiters on a virtual clock and on real threads", "The expected completion instant of each waiter is computed from the hook's own time stamp. " + TRUST),
 "C10": ("stateful property testing of failing handlers and hooks, virtual and multi-threaded", "Every failed message must be followed by exactly one panic hook with its own error before anything else runs; a bystander actor and the joined result are checked. " + TRUST),
 "C11": ("stateful property testing of link graphs and deaths against a model of the links", "Random link, unlink, spawn and end operations by concurrent tasks; who must and must not be told is computed from the completed calls. Racing calls are left open. " + TRUST),
 "C12": ("stress testing with generated concurrent link calls and simultaneous deaths", "A progress watchdog detects deadlock; every worker ends with the same call per pair, so the final links are known and are verified by killing the actors. " + TRUST),
 "C13": ("model-based property testing of handle operations, plus multi-threaded handle races", "A count of live handles predicts the reported counts, upgrades and the actor's end; on real threads upgrades race the last drop. " + TRUST),
 "C14": ("model-based property testing of forwarding chains with hop failures, plus load on real threads", "A model of hop states predicts the requester's answer, the path, and every panic hook; static and delegated chains. " + TRUST),
 "C15": ("stateful property testing of generated streams, virtual and multi-threaded", "Streams with generated delays, ends and cancellations; handled elements must be a prefix (or all) of the stream, and what is returned must account for the rest. " + TRUST),
 "C16": ("model-based property testing against a map, plus concurrent histories checked for linearizability", "Random operation sequences against a reference map and random multi-threaded histories. " + TRUST),
 "C17": ("property testing of algebraic laws, round trips and decoder fuzzing", "Random ids and byte strings over four encodings, and concurrent id generation. " + TRUST),
 "C18": ("property testing of conversion laws and round trips", "Random error values of every variant with payloads of several types, panics raised through real actors, and serde round trips. " + TRUST),
 "C19": ("property testing of pool histories with worker deaths, virtual and multi-threaded", "Generated dispatches, broadcasts and worker deaths; counting oracles for exactly-once, the worker's own reply, replacement to full size, and on the virtual clock that no idler worker existed. " + TRUST),
 "C20": ("model-based property testing of broker histories, virtual and multi-threaded", "Generated patterns, topics, subscriptions, deaths, slow recipients and strategies; an exact model of mailboxes, waiting and a reference matcher predicts what each recipient handles and when. " + TRUST),
 "C21": ("model-based property testing of bus histories, virtual and multi-threaded", "Generated registrations of four message types, deaths, slow recipients and strategies; an exact model predicts what each actor handles and when. " + TRUST),
 "C22": ("model-based property testing of pubsub histories, virtual and multi-threaded", "Generated subscriptions with filters (stateful ones included), deaths and slow subscribers, direct use and actor; an exact model predicts what each subscriber handles and when. " + TRUST),
 "C29": ("property testing of failing lifecycle hooks in generated populations, virtual and multi-threaded", "Generated populations with failing hooks, every way of ending and hook replacements; each failure must be reported once, with its own error, to the hook in force, and nothing else may be. " + TRUST),
 "C23": ("model-based property testing of actors with custom message and receive hooks", "Generated hook policies (defer, flush, discard, fail, panic), injected and reordered signals, every way of receiving; the log of received signals is replayed through a model predicting everything after it. " + TRUST),
 "C24": ("property testing of generated programs (macro-declared actors against hand-written twins and plain calls) and of reply types", "Programs declaring actors, messages and replies with the macros are generated and compiled against the current tree together with hand-written twins; both, and plain method calls, are driven with the same generated calls and must agree. Every reply type is sent with generated values. Method shapes are those the macro can express; serde and remote attributes are not part of it. " + TRUST),
 "C28": ("model-based differential testing of the ways to run an actor", "Generated histories before and during the run, through nine ways of running the actor, all held to one model of hooks, handled messages, replies, current-actor identity and final result. " + TRUST),
 "C30": ("model-based testing of blocking calls from threads in every actor state", "Generated sequences of blocking and async calls on actors held in each state, with a model of when each may return and with what; several threads of calls and of links. Real threads: the schedules are sampled. " + TRUST),
 "C25": ("model-based property testing of remote requests over real nodes, plus structured fuzzing of the wire in both directions", "Node processes with real swarms on loopback; the outcome of each request is predicted by what it does locally, concurrent histories lose connections, and a peer that is not a kameo node sends generated and mutated requests and answers. Network schedules are sampled. " + TRUST),
 "C26": ("model-based property testing of registration and lookup over real nodes, plus fuzzing of stored records", "Generated registrations, unregistrations and lookups on two and three nodes against a table of names; records of every shape stored by a foreign peer against a reference decoder; stores without room. " + TRUST),
 "C27": ("stateful property testing of link graphs over real nodes with injected connection losses, plus a foreign peer", "Generated links, unlinks, deaths and closed connections against the graph of links: who is told what, how often, and who stops by it; a foreign peer checks each notification on the wire. " + TRUST),
}
NA = {}
