#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
H = "hydra/src/"

p("C01", "Mailbox: exactly-once, in-order delivery and selective receive",
  "Every message sent to a live local process (by pid, registered name or alias) enters its mailbox exactly once with its content unchanged, and messages from one sender are received in the order they were sent; messages to dead or unknown destinations vanish without effect. A receive or select takes exactly the first queued message that has the requested type and satisfies the filter, and a remove discards exactly the matching ones; every other message, of whatever type, stays in the mailbox in its original order and is still available, intact, to a later receive of the right type. A strictly type-checked receive that meets a message of another type makes the receiving process exit abnormally instead of returning a value.",
  ["inputs", "histories", "schedules"], "all sequences of sends of several message types and of receive/select/remove/strict-receive calls with arbitrary filters, interleaved, from any number of senders",
  "Existing tests only send a handful of messages; none mixes message types, filters, saved items and multi-destination (serialized) copies in one history.",
  [H+"process.rs", H+"process_kernel.rs", H+"process_receiver.rs", H+"process_item.rs"],
  [("selective receive over the saved items then the channel", H+"process_receiver.rs: select/remove"), ("type dispatch of queued items", H+"process_receiver.rs: process_item/convert_item"), ("local send paths", H+"process_kernel.rs")],
  [("items", "messages already popped from the channel, skipped by an earlier selective receive", H+"process.rs")], ["Process::receive", "Process::receiver().select/remove"])

p("C02", "A send to several destinations equals one send to each of them",
  "Sending one message to a list of destinations (pids, names, aliases, with repeats, dead and unknown entries) has the same observable effect as sending it once to every destination in the list: each live destination receives exactly one copy per occurrence and nobody else receives anything. Every copy carries the same value: data is equal, and process ids, references, nodes and destinations embedded in the message still designate the same process, alias or node for every recipient.",
  ["inputs", "configurations"], "all destination lists (size 0..n, repeats, dead/unknown/one-shot aliases) and all serializable payloads including embedded pids/references/nodes/dests, node distributed or not",
  "No test sends to more than one destination; the fast path (first local destination gets the value itself) and the serialized path (others) only differ for some payloads and list shapes.",
  [H+"process_kernel.rs", H+"dest.rs", H+"pid.rs", H+"reference.rs", H+"node.rs", H+"serialize.rs"],
  [("fast path + lazily serialized copies", H+"process_kernel.rs: process_send"), ("wire identity of pids and references", H+"pid.rs, reference.rs"), ("list conversions", H+"dest.rs: From impls for Dests")], (), ["mailboxes of all destinations"])

p("C03", "Links: symmetric, transitive exit propagation, undone by unlink",
  "A link created by either process (link or spawn_link) is symmetric: when one of the two terminates for any reason other than normal, the other, unless it traps exits, terminates with the same reason, transitively through the whole linked group; when it traps exits it receives exactly one exit message naming the dead process and its reason (also for normal exits) and keeps running. A normal exit never terminates a linked process. After either side unlinks, neither side's exit affects the other, linking twice is the same as linking once, and linking to a process that is already dead delivers a 'noproc' exit signal; processes outside the linked group are never affected.",
  ["histories", "schedules"], "all histories of spawn/spawn_link/link/unlink/trap-flag changes/exits (return, panic, self exit, external exit, kill) over any number of processes",
  "Existing link tests are two fixed two-process scenarios; unlink from either side, transitive groups, mixed trapping and repeated links are untested.",
  [H+"link.rs", H+"process.rs", H+"process_registry.rs"],
  [("link table and teardown", H+"link.rs"), ("exit signal to linked process", H+"process_registry.rs: process_exit_signal_linked"), ("teardown on drop", H+"process.rs: Drop")],
  [("LINKS", "pid -> set of linked pids", H+"link.rs")], ["SystemMessage::Exit", "Process::alive", "Process::info().links", "ProcessDown reason seen by a monitor"])

p("C04", "Exit signals: reason, trap flag and sender decide the outcome",
  "An exit signal sent to another process terminates it with exactly the given reason if the reason is custom and the target does not trap exits, is delivered to it as exactly one exit message carrying sender and reason if it traps exits, and a normal or ignore reason never terminates another process; kill always terminates, trapping or not. A process that sends itself any exit signal terminates with that reason, trapping or not. A process whose function returns exits normally, one that panics exits with the panic text as its reason, and the reason reported to links and monitors is always that one; a process that has received a terminating signal is reported as not alive at once.",
  ["inputs", "histories"], "all reasons x trap flag x self/other/dead target x panic payloads, in any order",
  "Tests cover at most one or two cells of the matrix.",
  [H+"process_registry.rs", H+"process.rs", H+"catch_unwind.rs", H+"exit_reason.rs"],
  [("exit signal dispatch", H+"process_registry.rs: process_exit"), ("panic capture", H+"catch_unwind.rs")], (), ["SystemMessage::Exit", "ProcessDown reasons", "Process::alive"])

p("C05", "Monitors: one down message per active monitor, none after demonitor",
  "For every monitor on a pid or registered name, the monitoring process receives exactly one down message when the target terminates, carrying the monitor's own reference, the destination as given to the monitor call and the target's actual exit reason; if the target is already dead or the name unknown it is told 'noproc' at once. Several monitors on one target are independent, monitoring never affects the target, and the target's links are unaffected. After demonitor returns no down message for that reference is ever received, even if the target had already terminated and whether or not other receives already passed over that message; other monitors are not affected.",
  ["histories", "schedules"], "all histories of monitor/spawn_monitor/monitor_alias/demonitor/target exit/selective receive over any number of processes and names",
  "The monitor tests are fixed two-process scenarios; demonitor racing or following the exit, repeated monitors and named monitors are not explored.",
  [H+"monitor.rs", H+"process.rs", H+"process_receiver.rs"],
  [("monitor table", H+"monitor.rs"), ("delivery-time filter of demonitored references", H+"process_receiver.rs: process_item")],
  [("MONITORS", "pid -> reference -> monitoring pid", H+"monitor.rs"), ("Process.monitors", "live references of the monitoring process", H+"process.rs")], ["SystemMessage::ProcessDown", "Process::info().monitored_by"])

p("C06", "Aliases: route to their creator while active, one-shot when asked",
  "A message sent to an active alias reaches exactly the process that created the alias; once the alias is deactivated (unalias by its owner, the owner's death, the first message over a reply alias, or, for a monitor alias, delivery of the down message or demonitor) messages to it are dropped silently and it never becomes active again. A reply alias accepts exactly one message even when many are sent at the same time. unalias returns true exactly when the alias was active and owned by the caller, and never affects an alias of another process; unaliasing a monitor alias leaves its monitor active.",
  ["histories", "schedules"], "all histories of alias/monitor_alias/unalias/send-to-alias/death/demonitor over several processes, including concurrent sends to one reply alias",
  "No existing test uses aliases directly.",
  [H+"alias.rs", H+"process.rs", H+"monitor.rs", H+"process_kernel.rs"],
  [("alias table", H+"alias.rs"), ("teardown", H+"process.rs: Drop, unalias, demonitor")], [("ALIASES", "reference -> owner mailbox, one-shot flag", H+"alias.rs")], ["mailboxes", "return value of unalias"])

p("C07", "Registered names: a partial injective map onto live processes",
  "At any time each registered name maps to exactly one live local process and each process has at most one name; register succeeds exactly when the pid is local and alive, the name is free and the process unnamed (or the pair is already registered), and a failed register changes nothing. whereis, registered, info and sends by name agree with that map, unregister frees the name and the process for re-registration, and the name is freed when its process dies, without disturbing a later owner of the same name.",
  ["histories", "schedules"], "all histories of register/unregister/whereis/registered/exit over any names and processes, also concurrent",
  "No existing test covers name registration.",
  [H+"process_registry.rs", H+"process.rs"], [("name table with entry lock", H+"process_registry.rs: process_register/unregister"), ("removal at death", H+"process.rs: Drop")],
  [("PROCESS_NAMES", "name -> pid", H+"process_registry.rs")], ["Process::whereis", "Process::registered", "Process::info"])

p("C08", "Process table: spawned processes are visible, isolated and reclaimed",
  "From the moment spawn returns until the process terminates its pid is alive, listed and reachable by sends, exits, links, monitors and name registration; afterwards it is none of these, its pid is never reused, and nothing it owned (name, aliases, links, monitors, table entry) remains. This holds from whichever thread or runtime flavour spawn is called, however briefly the process runs. A panic or exit in one process never disturbs unrelated processes or the runtime, and process info (name, trap flag, links, monitoring processes) reports the actual state.",
  ["schedules", "histories", "configurations"], "all interleavings of spawn with the new process's own execution (any thread, any runtime flavour), and all histories of process operations",
  "Tests spawn from inside worker tasks where the new task cannot run first; the window between starting and registering a process is never exercised.",
  [H+"process.rs", H+"process_registry.rs", H+"process_registration.rs"], [("spawn and registration", H+"process.rs: spawn_internal"), ("teardown", H+"process.rs: Drop")],
  [("PROCESS_REGISTRY", "pid -> sender, task handle, flags, exit reason", H+"process_registry.rs")], ["Process::alive/list/info"], "chaos points (cfg hydra_verif) that widen race windows")

p("C09", "Timers: deliver once, not early, and never after cancel",
  "A message sent with send_after is delivered to every destination of the call exactly once, not before its delay has elapsed and promptly afterwards, timers with distinct deadlines fire in deadline order, and the sender's death does not cancel it. Cancelling a timer before it fires prevents delivery for good, cancelling a fired, cancelled or unknown timer does nothing, and no other timer is affected. read_timer returns the remaining time (never more than the delay, shrinking as time passes) while the timer is pending and None once it has fired or been cancelled.",
  ["histories", "inputs", "schedules"], "all histories of send_after/cancel_timer/read_timer/time advance with arbitrary delays (including zero) and destinations",
  "No existing test covers timers; a stale table entry only appears when the timer fires before it is registered.",
  [H+"process.rs", H+"process_registry.rs"], [("timer task and table", H+"process.rs: send_after; process_registry.rs: process_*_timer")], [("PROCESS_TIMERS", "timer reference -> deadline, task", H+"process_registry.rs")], ["mailboxes", "Process::read_timer"])

p("C10", "GenServer calls: each caller gets its own reply, or an error",
  "Every successful call returns exactly the reply the server produced for that very request, however many callers and requests are in flight, in whatever order, immediately or later, the server replies, and whether the server is addressed by pid or by name. A call to a server that is dead, unknown or terminates before replying returns an error with the server's exit reason, and one whose reply does not arrive within its timeout returns a timeout error not before the timeout has passed; a late, repeated or foreign reply is never taken for the reply to another or a later call. Calls leave no monitor or alias behind, and casts are handled exactly once, in the order one process sent them, and never produce a reply.",
  ["histories", "schedules", "inputs"], "all histories of concurrent calls, casts, delayed/duplicate/missing replies, timeouts and server exits, over local and named destinations, including nested calls between servers",
  "No existing test covers GenServer; correlation errors need late or out-of-order replies.",
  [H+"gen_server.rs", H+"from.rs", H+"call_error.rs"], [("call via monitor alias with reference-tagged reply", H+"gen_server.rs: call/reply"), ("cleanup after timeout", H+"gen_server.rs: call")], (), ["GenServer::call/cast/reply results", "caller mailbox"])

p("C11", "GenServer lifecycle: start result, callback order, single termination",
  "Starting a GenServer returns its pid exactly when init succeeded, only after init has completed, and otherwise an error (the reason init returned, 'timeout' when it was too slow, 'already_started' when the name is taken, some error when it panicked), after which that process terminates, runs no other callback and frees its name. Callbacks run one at a time, init first, each message reaching exactly the callback for its kind with its content. terminate runs exactly once, last, and with the stop reason when a callback fails, stop is called, or the exit of the linked starter reaches a server that traps exits, and the process then exits with that reason, so that stop returns only after termination.",
  ["histories", "inputs", "fault_sequences"], "all callback outcomes (ok, error with any reason, panic, slow) at each point, start variants (start, start_link, named, with timeout) and message sequences",
  "No existing test covers GenServer lifecycles.",
  [H+"gen_server.rs", H+"gen_server_options.rs"], [("start handshake", H+"gen_server.rs: start_gen_server*"), ("main loop", H+"gen_server.rs: gen_server_loop")], (), ["start result", "callback log", "ProcessDown reason"])

p("C12", "Supervisor strategies restart exactly the prescribed children in order",
  "When a child of a supervisor terminates, exactly the children prescribed by the strategy (one_for_one: it alone; one_for_all: every child; rest_for_one: it and those started after it) are stopped and then started again in start order, while all others keep running undisturbed. A permanent child is always restarted, a transient one only after an abnormal exit, and a temporary one never, whatever brought it down. After each completed recovery every child that should run is running with a fresh pid and the order of children is unchanged.",
  ["histories", "fault_sequences", "configurations"], "all child lists (restart types, strategies, start outcomes) and sequences of child exits (normal, shutdown, crash, kill), including several at once",
  "No existing test covers supervisors.",
  [H+"supervisor.rs", H+"child_spec.rs", H+"restart.rs"], [("restart logic", H+"supervisor.rs: restart_*"), ("child table", H+"supervisor.rs: children")], (), ["log of child starts and stops", "Supervisor::which_children/count_children"])

p("C13", "Supervisor restart intensity: gives up exactly beyond the limit",
  "A supervisor configured with at most N restarts within a duration D keeps restarting failing children as long as no more than N restarts happen within any D, and on the restart that would exceed this it terminates all children and itself exits with reason 'shutdown' instead of restarting. Restarts older than D do not count; a child whose restart itself fails is tried again, each attempt counting, until it succeeds or the limit is exceeded.",
  ["histories", "inputs", "fault_sequences"], "all limits N, durations D, crash schedules and start-failure patterns",
  "No existing test covers restart intensity.",
  [H+"supervisor.rs", H+"supervisor_options.rs"], [("restart bookkeeping", H+"supervisor.rs: add_restart, try_again_restart")], (), ["log of child starts", "supervisor exit reason"])

p("C14", "Supervisor administration agrees with a list of child specs",
  "start_child, restart_child, terminate_child, delete_child, which_children and count_children behave like operations on an ordered list of children, each identified by its id and running or not: each succeeds or fails with the documented error exactly according to that state, a failed operation changes nothing, and an operation affects no child other than the one named. Children whose start is ignored are kept stopped unless temporary, temporary children that stop and transient children that end normally are forgotten, which_children and count_children always report the actual children, and no sequence of requests crashes the supervisor.",
  ["histories", "inputs"], "all histories of administration calls with arbitrary ids, restart types, child kinds and start outcomes, mixed with child exits",
  "No existing test covers the administration API.",
  [H+"supervisor.rs", H+"child_spec.rs"], [("request handlers", H+"supervisor.rs: handle_call"), ("identifier set", H+"supervisor.rs: identifiers")], (), ["return values", "which_children/count_children"])

p("C15", "Supervisor shutdown stops every child, in reverse order, by its policy",
  "When a supervisor starts, children are started in order, and if one fails the ones already started are stopped and the start fails. When it stops for any reason (asked to, its parent exits, or too many restarts) every child has terminated before the supervisor has, one at a time in reverse start order, each according to its shutdown policy: brutal kill at once, with a timeout first asked to shut down and killed only when the timeout has passed, with infinity waited for. With automatic shutdown the supervisor stops by itself exactly when any (or all, as configured) of its significant children have terminated by themselves, and never otherwise.",
  ["histories", "configurations", "fault_sequences"], "all child lists with shutdown policies, children that obey or ignore shutdown, nested supervisors, failing starts, and auto-shutdown settings with significant children",
  "No existing test covers supervisors.",
  [H+"supervisor.rs", H+"shutdown.rs", H+"child_spec.rs"], [("termination", H+"supervisor.rs: terminate_children, shutdown"), ("auto shutdown", H+"supervisor.rs: check_auto_shutdown")], (), ["log of child stops with reasons", "ProcessDown of the supervisor"])

p("C16", "Registry: at most one live process per key, lookups agree with the table",
  "A registry maps each key to at most one live process: start starts a process exactly when the key has none (otherwise it reports the existing one), lookup, lookup_or_start, count, list, stop and remove agree with that map, and concurrent starts of one key create a single process. When a registered process exits for any reason its key becomes free and can be started again, and a failing or missing start routine or a duplicate registry yields an error without damaging the registry or its entries. When the registry stops, all its processes stop first according to the shutdown policy.",
  ["histories", "schedules", "fault_sequences"], "all histories of registry operations over any keys, with process exits, failing starts, cloned handles and concurrent callers",
  "No existing test covers the registry.",
  [H+"registry.rs", H+"registry_options.rs"], [("registry table and server", H+"registry.rs")], [("REGISTRY", "registry name -> key -> pid", H+"registry.rs")], ["Registry API results", "process liveness"])

p("C17", "Hash ring: deterministic, minimal movement, overrides, consistent lookup",
  "A ring maps every key to exactly one of its current nodes (none when it is empty), as a function of the current nodes, the overrides and the key alone, however the ring came to hold them (single or bulk additions, replacements, removals, in any order). Adding a node moves keys only onto it, removing one moves only its own keys, a node's own key maps to that node, and additions and removals return the value they replaced or removed. An override makes its key and no other resolve to the override's value, also when there are no nodes, until it is removed, replaced or cleared; clear removes nodes and overrides alike, and lookups that run while other threads change the ring see either the ring before or after each change.",
  ["histories", "inputs", "schedules"], "all histories of add_node/add_nodes/set_nodes/remove_node/add_override(s)/set_overrides/remove_override/clear/find_node/map_node over arbitrary node keys and lookup keys, also concurrent with lookups",
  "The four hash ring tests use fixed small examples.",
  [H+"hash_ring.rs"], [("sorted ring of hashed node keys, replaced atomically", H+"hash_ring.rs: add_node/remove_node/set_nodes/map_node"), ("override table", H+"hash_ring.rs: *_override*")], (), ["HashRing::find_node/map_node and returned values"])

p("C18", "Wire codec: round trips, any fragmentation, hostile bytes harmless",
  "Every frame encodes to bytes that decode to an equal frame, and a stream of encoded frames decodes to the same sequence of frames however it is split into reads, consuming exactly the bytes of each frame. Arbitrary, truncated, corrupted or adversarial bytes never panic, abort, exhaust memory or hang the decoder: they decode, ask for more, or give an error, and a complete frame with a malformed body is an error rather than a wait. A listening node that is fed such bytes, before or after the handshake, keeps serving its other connections.",
  ["inputs", "fault_sequences"], "all frames, all splits of a frame stream, and all byte strings up to a size bound (random, mutated-valid, and hostile length fields)",
  "No existing test covers the codec.",
  [H+"frame/mod.rs", H+"frame/hello.rs", H+"frame/send.rs", H+"node_remote.rs"], [("length-delimited bincode codec", H+"frame/mod.rs: Encoder/Decoder"), ("frame dispatch", H+"node_remote.rs")], (), ["Decoder/Encoder results", "node process survival"], "cfg hydra_verif export of the frame codec")

p("C19", "Only a peer that proves the shared secret can become a connected node",
  "A connection becomes an established node, and any frame on it has any effect, only after a handshake whose proof was made with the receiving node's own secret for that claimed name, address and broadcast setting; any other, altered, missing, replayed-with-different-identity or out-of-order handshake leads to the connection being dropped within the handshake timeout with no process, link, monitor or node list affected. Two nodes with the same secret connect, two with different secrets never do.",
  ["inputs", "histories", "fault_sequences"], "all handshake messages (valid, bit-flipped, wrong secret, wrong field, truncated), all frames sent before or instead of a handshake, all secrets",
  "No existing test opens a connection.",
  [H+"frame/hello.rs", H+"node_remote.rs", H+"node_options.rs"], [("HMAC over the hello fields", H+"frame/hello.rs"), ("handshake state machine", H+"node_remote.rs")], (), ["Node::list", "mailboxes", "socket closure"], "cfg hydra_verif export of the frame codec")

p("C20", "Remote messaging behaves like local messaging while connected",
  "Between connected nodes a message sent by pid, by name and node, or by alias is received exactly once, unchanged, by the designated process and no other, and messages from one process to another arrive in order; a send to several destinations spread over nodes delivers one copy per occurrence. A process id, reference, node or destination travelling inside a message, however often and through whichever nodes, still designates the original, becomes local again at home, and can be used to reply. Messages to dead processes, unknown names or inactive aliases on the remote node are dropped without effect.",
  ["histories", "inputs", "schedules"], "all histories of sends between two or three nodes with arbitrary destination lists and payloads",
  "No existing test uses two nodes.",
  [H+"node_remote.rs", H+"node_kernel.rs", H+"node_registry.rs", H+"process_kernel.rs", H+"pid.rs", H+"reference.rs", H+"node.rs", H+"frame/send.rs"], [("per-node send frames", H+"process_kernel.rs, node_kernel.rs"), ("delivery", H+"node_remote.rs: receive side"), ("identity translation", H+"pid.rs, reference.rs")], (), ["mailboxes on each node"])

p("C21", "Links, monitors and exits work across nodes, and report lost connections",
  "Links, monitors and exit signals between processes on connected nodes have the same observable effect as between local ones: the same reasons, exactly one message per link or monitor, 'noproc' for dead processes or unknown names, nothing after unlink or demonitor, and no effect on other processes. When the connection to a node is lost, every process linked to or monitoring a process there gets exactly one 'noconnection' exit or down message per link or monitor, and links or monitors to nodes that cannot be reached report 'noconnection' as well.",
  ["histories", "fault_sequences", "crash_points"], "all histories of link/unlink/monitor/demonitor/exit between processes on two nodes, with the peer process killed, disconnected or unreachable at any point",
  "No existing test uses two nodes.",
  [H+"link.rs", H+"monitor.rs", H+"node_registry.rs", H+"node_kernel.rs", H+"node_remote.rs"], [("remote link/monitor bookkeeping", H+"node_registry.rs"), ("connection-loss handling", H+"node_registry.rs: node_remote_supervisor_down")], [("NODE_LINKS / NODE_MONITORS", "per-node links and monitors", H+"node_registry.rs")], ["SystemMessage::Exit / ProcessDown", "Process::info"])

p("C22", "Node lifecycle: connect, disconnect, forget, stop and node monitors agree",
  "A node is listed as connected on both sides exactly while a handshaken connection exists, and as known once it has been heard of and not forgotten; connect, disconnect, forget, start and stop change these lists accordingly, can be repeated in any order, and after a disconnect or a peer restart the nodes can connect and exchange messages again. Each node monitor produces exactly one node-down message when its node disconnects, is forgotten, stops or dies, and none after demonitor; stopping the local node closes all its connections and makes it non-distributed. Listed nodes carry the peer's name and address.",
  ["histories", "fault_sequences", "crash_points"], "all histories of start/stop/connect/disconnect/forget/monitor/demonitor/peer kill over two or three nodes",
  "No existing test uses nodes.",
  [H+"node.rs", H+"node_registry.rs", H+"node_local.rs", H+"node_remote.rs"], [("node table", H+"node_registry.rs"), ("supervisors of local and remote node", H+"node_local.rs, node_remote.rs")], [("NODE_REGISTRATIONS / NODE_MAP", "known nodes and their state", H+"node_registry.rs")], ["Node::list", "Node::current", "SystemMessage::NodeDown"])

p("C23", "Serialized identifiers keep their identity, malformed ones are rejected",
  "Serializing and deserializing a process id, reference, node or destination on one node, in whatever distribution state and nested in whatever data, yields an equal value: a local identifier stays local, a remote one keeps its node and id, and two different identifiers never become equal. Payload bytes that do not encode a value of the expected type, including well-formed identifiers with missing parts, yield an error or are ignored by receives of that type, and never panic or become a different valid value.",
  ["inputs", "configurations"], "all identifier values and containers, with the node local-only or distributed, and arbitrary/mutated payload bytes",
  "No existing test serializes an identifier.",
  [H+"pid.rs", H+"reference.rs", H+"node.rs", H+"dest.rs", H+"serialize.rs"], [("wire forms", H+"pid.rs: PidWire; reference.rs: ReferenceWire; node.rs: NodeWire")], (), ["serde round trips", "receives of crafted payloads"])

p("C24", "Semaphore: never over-issues, never loses, permits",
  "At no time do the outstanding permits of a semaphore (shared or owned) exceed the number it was created with, and dropping a permit, also that of a cancelled waiter or of a dying process, returns exactly what it took, so once all are dropped exactly the original number can be acquired again. try_acquire never waits and succeeds exactly when a permit is free and nobody is queued for it, waiters are served in the order they asked as soon as enough permits are free, and acquiring many is all-or-nothing.",
  ["histories", "schedules"], "all histories of acquire/acquire_many/try_acquire/release/cancel by any number of processes",
  "Two documentation examples only.",
  [H+"semaphore.rs"], [("permit accounting", H+"semaphore.rs")], (), ["try_acquire", "completion order"])

p("C25", "Task: await returns the task's own value or its failure",
  "Awaiting a task (asynchronous or blocking) yields exactly the value its own function returned, or a task error if it panicked or was shut down, for any number of tasks awaited in any order; awaiting many yields the values in the order of the handles, or the first error in that order. Shutting a pending task down stops it, so that none of its remaining body runs afterwards, and returns its value if it had already finished. A failing task disturbs neither its spawner nor other tasks, and messages or casts it sends are delivered like any other while nothing else reaches the spawner's mailbox.",
  ["histories", "schedules"], "all sets of tasks with arbitrary durations, results, failures and shutdowns, awaited in any order",
  "No existing test covers Task.",
  [H+"task.rs"], [("task handle", H+"task.rs")], (), ["await results", "process list"])

p("C26", "Application run: starts its tree, shuts it down gracefully, then returns",
  "Running an application starts its process tree once and returns only when the process returned by start has terminated, whatever its reason, or at once when start fails or panics; it never hangs afterwards. With graceful shutdown enabled a termination signal asks that process to shut down, lets it take as long as it needs up to the configured timeout, and kills it only after that timeout; with it disabled no signal handling is installed. The test variant returns normally exactly when that process exits with a normal or shutdown reason, and panics otherwise.",
  ["fault_sequences", "configurations", "histories"], "all application start outcomes, child behaviours on shutdown (obey, ignore, slow), timeouts, and signal times",
  "The test macro is used by tests, but no test checks shutdown.",
  [H+"application.rs", H+"application_config.rs"], [("run loop", H+"application.rs: Application::run/test")], (), ["process exit code/log of an application run in a child process"])

p("C27", "WebSocket server: each connection gets its own handler and exact messages",
  "Every websocket connection that the acceptor admits gets its own handler process, which sees accepted, text and binary messages exactly once, in order and unchanged, and whose replies and pushed commands reach exactly that client in order; a rejected upgrade is answered with an error response, and it or a handler failure ends only that connection. When a connection ends, for whatever reason (client close, which is answered, abrupt loss, handler error or exit, missed handshake deadline), its handler process ends, after terminate where that is documented and with no callback afterwards, and the server keeps accepting others; malformed handshakes or frames never bring the server down.",
  ["histories", "inputs", "fault_sequences"], "all sequences of client messages, handler replies/commands/errors, closes and malformed bytes over several concurrent connections",
  "The websockets crate has no tests.",
  ["hydra-websockets/src/websocket_server.rs", "hydra-websockets/src/websocket_handler.rs", "hydra-websockets/src/websocket_command.rs", "hydra-websockets/src/websocket_server_config.rs"], [("acceptor and per-connection process", "hydra-websockets/src/websocket_server.rs"), ("handler commands", "hydra-websockets/src/websocket_handler.rs")], (), ["client side of the socket", "handler callback log"])

p("C28", "Node options: heartbeats keep idle links up, silence takes them down",
  "A connection that is idle but healthy stays up indefinitely, and one whose peer has gone silent is declared down after the configured heartbeat timeout, not before, and reported like any other loss of connection. Each node option sets exactly the setting it names, a handshake that does not complete within the handshake timeout is dropped, and a slow or stuck peer does not delay traffic with other nodes.",
  ["configurations", "fault_sequences", "schedules"], "all combinations of heartbeat interval, heartbeat timeout and handshake timeout, and peers that stop reading, stop writing or never handshake",
  "No existing test opens a connection.",
  [H+"node_remote.rs", H+"node_options.rs", H+"node_local.rs"], [("ping/pong and timeouts", H+"node_remote.rs"), ("options", H+"node_options.rs")], (), ["Node::list over time", "raw socket"], "cfg hydra_verif export of the frame codec")

p("C29", "No lost or phantom process signals under real concurrency",
  "When links, monitors, names, aliases, sends, spawns and exits of the same processes happen at the same time on several threads, the outcome equals that of some order of those operations: every monitor set up yields exactly one down message once its target is dead, every link either breaks both ways or reports 'noproc', no message to a live process is lost or duplicated, and no name, alias, link or monitor entry outlives its process. No such combination deadlocks or panics inside the library.",
  ["schedules", "histories"], "all interleavings of concurrent link/unlink/monitor/demonitor/register/alias/send/spawn/exit operations on shared targets, on a multi-threaded runtime",
  "Tests are single scenarios without contention; the windows are a few instructions wide.",
  [H+"process_registry.rs", H+"process.rs", H+"link.rs", H+"monitor.rs", H+"alias.rs"], [("existence check held during installation", H+"process_registry.rs: process_exists_lock"), ("teardown order", H+"process.rs: Drop")], (), ["mailboxes at quiescence", "table sizes via info/list"], "chaos points (cfg hydra_verif) that widen race windows")

p("C30", "Local-only values stay intact and never cross a node boundary",
  "A value of any type wrapped as local and sent to a single local process arrives as the very same object, never copied or serialized. Any attempt to serialize such a value (a send to a remote process or to several processes) makes the sender fail before any destination has received anything, and no byte sequence received from elsewhere ever becomes such a value: it is skipped by receives of that type without harming the receiver or other messages.",
  ["inputs", "configurations"], "all payloads wrapped in the local-only container, sent to one or several destinations, local or remote",
  "No existing test covers the container.",
  [H+"local.rs", H+"process_kernel.rs"], [("local-only wrapper", H+"local.rs")], (), ["mailboxes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
