
NOT_APPLICABLE = []
TRACE = "TLA+ specification, TLC: exhaustive check of small instances; TLC-generated scripts run on the real processes, recorded traces validated against the specification"

prop("C04", "Queue transactional visibility, order and exactly-once",
 "A message enqueued in a transaction is seen by no dequeue until that transaction commits and never exists after it rolls back; a message dequeued in a transaction is delivered to nobody else and is gone for good after commit, back in its queue after rollback. A dequeue returns the first available committed message (in enqueue order) that matches its selector, with the content, properties and id it was enqueued with, and 'no message' only when there is none. Work outside of a transaction takes effect at once, and the transaction manager is told about the resource's involvement before the reply to the first operation of a transaction branch.",
 ["histories", "schedules"], "all histories of enqueue, dequeue (with property and id selectors), commit and rollback by several transactions and branches on several queues",
 "the tests sample a handful of single-transaction histories; visibility and order are statements about all interleavings of several transactions",
 [Q + "queuebase.cpp", Q + "handle.cpp", "middleware/queue/include/queue/group/queuebase/schema.h"],
 [("enqueue/dequeue statements", Q + "queuebase.cpp"), ("involvement", Q + "handle.cpp")], "messages with state added/enqueued/dequeued and transaction",
 "replies of the queue-group process and its state/meta replies", TRACE, "bounded: scripts of 40-90 operations, two base queues, three transactions")
prop("C05", "Queue redelivery, retry delay and error queue",
 "Each rollback of a dequeue (or crash recovery of it) returns the message to its queue with its redelivery count one higher, unavailable until the queue's retry delay has passed; when the count exceeds the queue's retry count the message moves instead to the queue's error queue with redelivery count zero, and it never moves from an error queue by itself. Restore moves exactly the committed messages of an error queue back to their queue of origin.",
 ["histories"], "all histories of dequeue, rollback, restore and passing time for all retry counts and delays",
 "a test rolls back a given message a given number of times; counts and moves depend on the whole history",
 [Q + "queuebase.cpp", "middleware/queue/include/queue/group/queuebase/schema.h"],
 [("rollback triggers and statements", Q + "queuebase.cpp")], "redelivered count, available time, queue and origin of every message",
 "replies of the queue-group process and its state/meta replies", TRACE, "bounded: retry counts 0-2, delays 0 and 50 ms; times are checked as intervals")
prop("C06", "Queue work that was acknowledged survives a crash",
 "Whatever moment the queue-group process is killed at, after restart the queues hold exactly the effects of a prefix of the requests it handled that includes every request it replied to: an acknowledged enqueue, dequeue, commit or rollback is never lost, an acknowledged prepare leaves the prepared work in the file, and no message is lost or duplicated. Uncommitted work that survives a crash stays uncommitted until its transaction is committed or rolled back.",
 ["crash_points", "histories"], "kill -9 at any point of any history, with any number of requests in flight",
 "the tests do not kill the process; a crash point is a property of the position in the message stream",
 [Q + "queuebase.cpp", Q + "handle.cpp", Q + "main.cpp"],
 [("batched persist before replies", Q + "handle.cpp"), ("database transaction", Q + "queuebase.cpp")], "database file and replies held until it is written",
 "replies before the kill, state/meta replies after the restart", TRACE, "crash points: SIGKILL while bursts of requests are in flight")
prop("C07", "Blocking dequeue waits without losing or stealing messages",
 "A blocking dequeue that finds nothing gets no reply until a matching message becomes available (by commit, rollback, restore, a plain enqueue or when a delay passes) and then gets exactly one reply with one message that goes to nobody else; none stays waiting while a matching message is available. A forgotten waiter, or one whose process is gone, receives nothing and takes no message with it, and the forget reply tells whether it was still waiting; at shutdown every waiter is answered.",
 ["schedules", "histories"], "all interleavings of waiters, deliveries, delays, forgets and process exits",
 "tests have one waiter and one message; lost wake-ups and double deliveries need several of both",
 [Q + "handle.cpp", Q + "state.cpp", "middleware/common/include/common/communication/select.h"],
 [("pending dequeues", Q + "handle.cpp"), ("message pump", "middleware/common/include/common/communication/select.h")], "waiting requests, messages, alarm",
 "replies of the queue-group process", TRACE, "which of several waiters is served is left open")
prop("C22", "Queue administration and accounting are exact",
 "Restore, clear, remove and recover act on exactly the messages they are specified for (clear and remove spare uncommitted messages unless forced, recover commits or rolls back exactly the given transactions) and report exactly those; after every history each queue's reported count, size, uncommitted, enqueued and dequeued numbers equal what its messages and moves add up to. A message that would exceed the configured capacity of the queue group is refused without any effect, and a queue removed from the configuration stays until its last message is gone.",
 ["histories", "configurations"], "all histories of administration, ordinary use and configuration changes",
 "a counter or a trigger that is wrong after one particular sequence is not met by tests of single operations",
 [Q + "queuebase.cpp", Q + "handle.cpp", "middleware/queue/include/queue/group/queuebase/schema.h"],
 [("triggers", "middleware/queue/include/queue/group/queuebase/schema.h"), ("administration statements", Q + "queuebase.cpp")], "queue table and message table",
 "administration replies and state/meta replies", TRACE, "bounded as C04")

M = "middleware/service/"
prop("C01", "Service lookup hands out idle instances, first come first served",
 "A local instance is given to at most one caller at a time: a lookup is answered with an instance that advertises the requested service (by its name or one of its routes) and is idle, and the instance stays reserved for that lookup until the call is acknowledged, the reservation is discarded, or the process ends. A lookup that finds all instances busy waits, and when an instance becomes available the lookup that has waited the longest for one of its services gets it; nobody waits for a service that has an idle instance. A lookup with no-reply semantics is never kept waiting: its call goes to the service-forward, which waits instead. Every lookup gets at most one answer, and one that is neither answered nor discarded is still waiting.",
 ["histories", "schedules"], "all histories of lookups, acknowledgements, discards, advertisements and process exits with any number of instances, services and routes",
 "tests look up a service a few times with one or two instances; double reservations, lost wake-ups and unfair orders need several callers, several services per instance and particular sequences",
 [M + "source/manager/handle.cpp", M + "source/manager/state.cpp", M + "source/forward/handle.cpp"],
 [("lookup", M + "source/manager/handle.cpp"), ("reservation", M + "source/manager/state.cpp")], "instances (services, reservation), pending lookups in order, routes",
 "messages of the service-manager process to callers, discovery and transaction manager", TRACE, "bounded: scripts of 50-100 operations, 3 local and 1 remote instance, 4 services, 4 callers; exhaustive model: 3 lookups, 2 local and 1 remote instance")
prop("C02", "No caller is left without an answer when something fails",
 "When the process of a reserved instance ends, its waiting caller gets exactly one service error reply; when a deadline (the caller's, the service's, or the shorter of both) passes, a caller that waits for an instance gets a timeout answer and a caller that waits for a reply gets a timeout error, and the instance is handled as the service's timeout contract says; an instance to be killed gets no more calls; if the instance finishes a call in transaction after its timeout, that transaction is rolled back, and no other. The answer to a lookup tells what is left of the deadline. A caller that disappears or discards its lookup releases what was reserved for it. A prepare-shutdown request is answered for every instance it names exactly when the instance is idle, unknown, or done.",
 ["histories", "crash_points", "schedules"], "all histories of lookups, process exits (of callers and callees), passing time, discards and shutdown requests",
 "failures during calls are tested one at a time; what is left behind after combinations (timeout then acknowledgement, exit while waiting, discard while reserved) is not",
 [M + "source/manager/handle.cpp", M + "source/manager/state.cpp"],
 [("timeout", M + "source/manager/handle.cpp"), ("deadlines", M + "source/manager/state.cpp")], "as C01, deadlines, instances that have timed out, shutdown requests",
 "messages of the service-manager process", TRACE, "bounded as C01; deadlines of 250 ms and 60 s, checked as intervals")
prop("C03", "Lookups are routed by locality, order, hops and transaction",
 "A lookup leads to a local instance if the service has one, otherwise (unless the requester is another domain that asks for local services only) to one of the remote instances with the best order and, among these, the fewest hops, preferring one that the transaction already involves, otherwise it is discovered; the association of a transaction lasts until it is done. An instance provides only services that the configured restriction of its alias allows. Other domains are told about exactly the services that are discoverable and have (local, or for an extended request any) instances; a discovery that finds nothing answers the waiting lookup as absent, and one that finds something lets it through.",
 ["histories", "configurations"], "all histories of local and remote advertisements, changes of order, resets, transactions and lookups, for all configurations of routes, restrictions and visibility",
 "the tests set up one constellation of connections at a time; the choice depends on the whole history of advertisements and orders",
 [M + "source/manager/state.cpp", M + "source/manager/handle.cpp"],
 [("priorities", M + "source/manager/state.cpp"), ("discoverable", M + "source/manager/handle.cpp")], "remote instances with order and hops per service, associations, visibility",
 "messages of the service-manager process, its replies to discovery requests", TRACE, "bounded: 3 local, 3 remote instances, 4 services, 3 transactions")

T = "middleware/transaction/"
prop("C08", "A transaction has one outcome at all its resources",
 "For a transaction with one coordinator every resource branch that takes part gets the same outcome: no resource is asked to commit unless every one of them voted ok or read-only in a prepare phase that is over (a single one is committed in one phase), every one that voted ok is asked for the outcome exactly once, none that voted read-only is, and after an error vote, a lost vote or a rollback request none is asked to commit. The answer to the initiator (a process, or the transaction manager of another domain for which this one acts as a resource and waits for the outcome it decides) is consistent with what the resources answered: ok only if all did what was asked. The event that a transaction is gone names that transaction and is sent once.",
 ["histories", "schedules"], "all interleavings of involvement, commit and rollback (by processes and by other domains), votes and answers of every kind, and ends of processes, for several transactions that share resource instances",
 "tests commit one transaction with one or two mocked resources that answer at once; atomicity is a statement about every order of votes, errors and losses of several branches",
 [T + "source/manager/handle.cpp", T + "source/manager/state.cpp", T + "include/transaction/manager/state.h", "middleware/common/include/common/message/coordinate.h"],
 [("phases", T + "source/manager/handle.cpp"), ("votes", "middleware/common/include/common/message/coordinate.h")], "transactions with stage, branches and involved resources; phases in progress with what is answered",
 "requests that the transaction-manager process sends to resource proxies and external resources, its replies and events", TRACE, "bounded: scripts of 50-90 operations, 3 local resources with up to 3 instances, 3 external ones, 2-3 branches per transaction; exhaustive model of up to 6 steps (8 in the thorough check)")
prop("C09", "Every transaction request is answered once, in spite of failures",
 "Whatever resource instances, external resources and owners end, and in whatever order: a resource instance works with at most one request at a time, requests to a resource whose instances are busy wait and are given to the first instance that is free, what an instance that died had to answer counts as failed, as do requests to a resource that has no instances left or to an external resource that is gone, so that every commit, rollback and prepare request gets exactly one final answer once all other requests are answered; transactions that are not on their way to an outcome when the process that owns them ends are rolled back.",
 ["histories", "crash_points"], "death of any resource instance, external resource or owner at any point of any history",
 "tests do not kill resource proxies in the middle of a phase; what hangs depends on who had which request when it died",
 [T + "source/manager/handle.cpp", T + "source/manager/state.cpp"],
 [("process exit", T + "source/manager/handle.cpp"), ("instances", T + "source/manager/state.cpp")], "instances with the request they have, pending requests",
 "as C08", TRACE, "bounded as C08")

A = "middleware/common/source/"
prop("C10", "A service call gives its own reply, and its failure to the transaction",
 "tpcall, tpacall, tpgetrply and tpcancel: a reply is delivered exactly once, to the descriptor of the call that caused it (or to any, with TPGETANY, in order of arrival), with the code, user code and data the service returned; a descriptor is valid from the call until the reply is fetched or the call is cancelled, and what comes after that is dropped and given to nobody. A call within a transaction carries the transaction (unless TPNOTRAN), which can not be committed while such a call is unanswered or once one has reported that it can not commit; outside a transaction, or with TPNOTRAN or TPNOREPLY, none is carried. A call that fails - no such service, timeout, an instance that is gone - leaves no descriptor, no pending reply and a transaction that still can be resolved, and resources are suspended before a synchronous call and resumed after it.",
 ["histories", "schedules"], "all sequences of synchronous and asynchronous calls, cancels, and transaction demarcation, with replies of every code in any order and at any time",
 "the tests call services one or two at a time and the replies come at once; who gets which reply, and what is left behind after a failure, depends on orders of replies, cancels and failures",
 [A + "service/call/context.cpp", A + "service/call/state.cpp", A + "service/lookup.cpp", A + "transaction/context.cpp", "middleware/xatmi/source/xatmi.cpp"],
 [("calls", A + "service/call/context.cpp"), ("pending replies of a transaction", A + "transaction/transaction.cpp")], "descriptors, messages that have arrived or are to be dropped, transactions with pending calls",
 "messages and return codes of an application process", TRACE, "bounded: scripts of 50-120 operations; up to 9 outstanding calls, 3 instances; exhaustive model of 8-9 steps (11-12 in the thorough check)")
prop("C11", "Transaction demarcation and resources follow the tx and xa rules",
 "tx_begin, commit, rollback, suspend and resume, in chained, unchained and stacked mode: a transaction is begun only where none is (or suspends it, stacked), every transaction that is begun is resolved exactly once, by the one that began it, with one-phase commit in its single resource or by the transaction manager if there are more branches, and never commits once it has been marked as rollback only, timed out or has unanswered calls. A resource works for one transaction at a time: it is started before, ended before the decision, suspended and resumed with the transaction, joined when others are involved, and never asked to decide while it works. What resources and the transaction manager answer determines the return code; after a failure the resources are left with no association and the transaction can still be rolled back.",
 ["histories"], "all sequences of demarcation, calls, dynamic registration, and failures of any resource at any of its entries",
 "the tests have resources that answer ok, or one that fails at one point; what is left associated after a failure in the middle of several resources is not looked at",
 [A + "transaction/context.cpp", A + "transaction/resource.cpp", A + "code/tx.cpp", A + "code/convert.cpp"],
 [("demarcation", A + "transaction/context.cpp"), ("resources", A + "transaction/resource.cpp")], "stack of transactions with involved and registered resources, control and return modes, xids",
 "xa calls, messages and return codes of an application process", TRACE, "bounded: scripts of 50-120 operations, up to 3 resources (static and dynamic); exhaustive model of 9 steps (12 in the thorough check)")
prop("C12", "A conversation is half duplex, in order, and ends once",
 "tpconnect, tpsend, tprecv and tpdiscon: only the side that has the control sends, control goes over exactly when it is given away, data arrives in the order it was sent and is delivered once, and each side learns of the end exactly once with the event that says why (service success, failure or error, disconnect), after which the descriptor is gone. A connect that can not be established fails, blocks nobody, leaves nothing and releases the instance that was reserved. A transaction that takes part in a conversation can be committed when the conversation has ended normally, and only be rolled back if it was aborted or reported that it can not commit. A server survives whatever the other side does.",
 ["histories", "schedules"], "all interleavings of sends, receives, returns, disconnects and deaths at both sides",
 "the tests follow the protocol; violations of it and aborts at every point are what the guarantees are for",
 [A + "service/conversation/context.cpp", A + "server/handle/conversation.cpp", "middleware/common/include/common/service/conversation/state.h", "middleware/common/include/common/server/handle/service.h"],
 [("conversations", A + "service/conversation/context.cpp"), ("serving", "middleware/common/include/common/server/handle/service.h")], "conversation descriptors with duplex, messages that have arrived, transactions with pending conversations",
 "messages and return codes of an application process, as the one who connects and as the one who is connected to", TRACE, "bounded: scripts of 50-120 operations, several conversations at a time; exhaustive model of 8-9 steps (10-12 in the thorough check)")
prop("C23", "A service is executed in the right transaction, with one answer and one ack",
 "A service is entered in the transaction its type says: the caller's (auto, join), a new one (auto without a caller's, atomic, branch), a branch of the caller's (branch) or none, with its resources started there. Whatever it does - return with success or failure, forward, leave calls unanswered, leave transactions of its own - and whatever resources and the transaction manager answer, it is followed by exactly one reply to the caller (none if the caller wants none; none if forwarded) and exactly one acknowledgement to the service manager. A transaction that was started for the service, or in it, is committed only if the service succeeded and nothing marked it as rollback only, otherwise rolled back; the caller's is never decided here but reported as failed. The reply says service error if the work could not be committed, and afterwards no resource has an association and the server takes the next request.",
 ["histories"], "all sequences of services of every type, with every way to end, with calls and transactions inside, and failures of any resource and any answer of the transaction manager",
 "the tests call services that return; combinations of types, ends and failures are many, and what one leaves behind shows in the next",
 ["middleware/common/include/common/server/handle/service.h", A + "server/handle/policy.cpp", A + "transaction/context.cpp", A + "server/handle/service.cpp"],
 [("execution", "middleware/common/include/common/server/handle/service.h"), ("finalize", A + "transaction/context.cpp")], "as C10 and C11, the service that is executed",
 "messages, xa calls and service entries of a server process", TRACE, "bounded: scripts of 50-120 operations; exhaustive model of 8 steps (11 in the thorough check)")

GW = "middleware/gateway/"
prop("C13", "Requests to other domains go to one connection and end once",
 "The outbound side of the gateway: a service call, conversation or queue request that arrives for a connection to another domain is sent over that connection once, as it was given (in the form of the protocol version that was agreed), and its caller gets exactly one final answer: the one of the other domain, or an error if the connection is lost, whenever that happens. The transaction manager is told that the connection takes part in a transaction before anything of the transaction is sent. Answers of the transaction phases and of discovery go to who asked. What a connection offers is advertised with its hops and order when the other domain tells, and withdrawn when the connection is told to leave or is lost. A connection that is asked to leave (by the other domain, by configuration or at shutdown) stays until everything that is outstanding on it, transactions included, is done, and then goes at once; the process ends when nothing is left. Connections that are lost are connected again, unless they were removed.",
 ["histories", "schedules", "crash_points"], "all sequences of requests, answers, disconnects and losses over several connections with different protocol versions, at any point of each other",
 "the tests send a request over a connection and take the answer; connections that are lost or leave with work of different kinds outstanding, and late or repeated answers, are too many to list",
 [GW + "source/group/outbound/handle.cpp", GW + "source/group/outbound/main.cpp", GW + "source/group/outbound/state.cpp", GW + "include/gateway/group/connection.h", GW + "include/gateway/group/tcp.h", GW + "include/gateway/group/tcp/connect.h", GW + "include/gateway/message/protocol/transform.h", "middleware/common/include/casual/task/concurrent.h", "middleware/common/source/communication/tcp.cpp"],
 [("requests", GW + "source/group/outbound/handle.cpp"), ("tasks", "middleware/common/include/casual/task/concurrent.h"), ("connections", GW + "source/group/outbound/main.cpp")],
 "connections (attempted, up, leaving), outstanding tasks with their callers, destinations of answers, transactions per connection",
 "messages of a real outbound process over TCP and IPC", TRACE, "bounded: scripts of 50-110 operations over up to 4 connections with protocol versions 1.0 - 1.4; exhaustive model of 5-6 steps with 2 connections (8-9 in the thorough check)")
prop("C14", "Requests of other domains are served once, inside their transaction",
 "The inbound side of the gateway: a service call, conversation or queue request that arrives over a connection from another domain is looked up in this domain (with discovery only if the connection is configured so), is passed on to who was looked up, once, and within the branch the transaction manager of this domain has given the transaction - never outside of it and never with the identity of the other domain; the answer goes back over the connection it came from, in the form of the protocol version that was agreed, once. What cannot be passed on is answered with an error; what expects no answer gets none. Prepare, commit and rollback reach the transaction manager with the branch of this domain and are answered with the identity the other domain asked with, or with a protocol error when the transaction is not known. When a connection is lost, at any point, lookups and reservations that will not be used are given back, servers are told that their conversations are over, and transactions nobody else takes part in are checked with the transaction manager. A connection that is asked to leave stays until no request and no transaction of it remains, and then goes; the process ends when the last one is gone.",
 ["histories", "schedules", "crash_points"], "all sequences of requests, answers of service, queue and transaction manager in any order, losses and disconnects, over several connections with different protocol versions",
 "the tests make calls over one connection; the orders in which lookup, branch, answers and losses can come - for every kind of request - are too many to list",
 [GW + "source/group/inbound/handle.cpp", GW + "source/group/inbound/task/create.cpp", GW + "source/group/inbound/main.cpp", GW + "source/group/inbound/state.cpp", GW + "include/gateway/group/connection.h", GW + "include/gateway/group/tcp.h", GW + "include/gateway/group/tcp/listen.h", GW + "include/gateway/message/protocol/transform.h"],
 [("requests", GW + "source/group/inbound/task/create.cpp"), ("messages", GW + "source/group/inbound/handle.cpp"), ("state", GW + "source/group/inbound/state.cpp")],
 "connections (up, asked to leave, leaving), requests with lookup and branch, transactions per connection",
 "messages of a real inbound process over TCP and IPC", TRACE, "bounded: scripts of 60-120 operations over up to 4 connections with protocol versions 1.0 - 1.4; exhaustive model of 6-7 steps with 2 connections (8 in the thorough check)")

prop("C17", "Messages between processes arrive whole, once and in order",
 "Sending through a send coordinator never blocks, and a message arrives at its destination once, complete, and after those that the same sender sent there before, however full the destination is, how large the message is and whatever else is sent. If the destination is gone, or is given up, the callback of each message that is not sent yet is called once, in order, with that message and destination, and may itself send messages, to anyone; what has been delivered is never reported as failed, and what has been reported is never delivered. A receiver that asks for the next message - any, of certain types, with a correlation - gets the first from each sender that matches, and 'nothing' only when no such message has come; what it did not ask for stays until it does, and a message that it has discarded, before or after it came, is never given to it.",
 ["histories", "schedules", "fault_sequences"], "all histories of sends of any size by several senders to several devices, partial progress, selective reception, discards, devices that are closed or killed, callbacks that send",
 "the tests send one message at a time between two parties; every manager relies on this for all orders, sizes, full queues and failures",
 ["middleware/common/source/communication/ipc/send.cpp", "middleware/common/include/common/communication/ipc/send.h", "middleware/common/source/communication/ipc.cpp", "middleware/common/source/communication/ipc/message.cpp", "middleware/common/include/common/communication/device.h"],
 [("coordinator", "middleware/common/source/communication/ipc/send.cpp"), ("socket", "middleware/common/source/communication/ipc.cpp"), ("device", "middleware/common/include/common/communication/device.h")],
 "messages pending per coordinator and destination with the bytes already sent, the socket queue, the messages complete and incomplete in the cache of the device, discarded correlations",
 "what two real coordinators and the devices return, the messages received with their contents checked, what is pending", TRACE, "bounded: scripts of 60-150 operations, two coordinators, up to nine devices")

prop("C19", "A discovery request is answered once, with what can be reached",
 "The discovery process of a domain answers each request exactly once, to the one that asked, with nothing but requested names, whatever providers register, answer, are silent or die in between. A request of this domain is asked of every registered provider that can discover; a request of another domain is first looked up at the providers within the domain (local services only, if it is not to be forwarded), and only what was not found there is discovered further. A name is part of the answer if and only if it was found by the lookup or reported - directly or by the routes it is configured with, origin names are translated to routes in answers and routes to origins in questions - by a provider that was asked, before the answer; the answer is given as soon as everything that is asked for is found, and otherwise when every provider that was asked has answered or is gone, never later and never earlier. Requests that are accumulated, since there are many of them or a change of the topology is about to be handled, are treated in the same way after the time limit. When a connection is new, everything known in the domain, configured for the connection, or asked for in discoveries that are under way is explored at just the connections that changed, and the change is reported upstream with all the domains it has passed, and not if it has been here before. At shutdown new requests are answered with nothing, all that is under way is answered, and then the process ends.",
 ["histories", "schedules", "fault_sequences"], "all orders of requests, answers of the lookup, discovery and known phases, registrations, topology changes, configuration updates, deaths and shutdown",
 "the tests run one or two domains where every provider answers; what overlapping requests that are accumulated are answered when providers answer partly, late or die is not tested",
 ["middleware/domain/source/discovery/handle.cpp", "middleware/domain/source/discovery/state.cpp", "middleware/domain/include/domain/discovery/state.h", "middleware/common/include/common/message/coordinate.h"],
 [("requests", "middleware/domain/source/discovery/handle.cpp"), ("fan out", "middleware/common/include/common/message/coordinate.h")],
 "providers with abilities, configured routes, what is accumulated, fan outs under way (lookup, discover, known) with who they wait for and what has been found, number of requests",
 "messages of a real discovery process over IPC", TRACE, "bounded: scripts of 70-150 stimuli, three providers, four requesters, five services and two queues; exhaustive model of 6-8 steps with two requests")
prop("C20", "Queue forward resolves each message once, in a transaction of its own",
 "A queue forward dequeues each message within a new transaction. The transaction is committed only if the service replied OK and - if the forward has a reply or target queue - the enqueue to that queue, made within the same transaction with the reply (or the message) as payload, was acknowledged; in every other case - no message, the service is absent, fails or can not be looked up in time, the target queue is not there or its group is gone, shutdown - it is rolled back. Each flow ends with exactly one of the two and then starts over, as long as that many instances are configured and the queues are available: there are never more flows than were configured, and never fewer for good - queues that are lost, because their group dies, is about to leave or does not know them, are looked up again and the forward goes on when they are found. A configuration with fewer instances cancels those that wait for a message or for a service, never one that calls; after a shutdown no new message is taken and the process ends when the last flow has.",
 ["histories", "schedules", "crash_points"], "all orders of answers from queue groups, queue manager, service manager, services and transaction manager, over several flows, with groups that die at any point, reconfiguration and shutdown",
 "the tests forward messages in a domain where nothing goes wrong; what happens when a group dies, or is replaced, between any two of the steps of a flow is not tested",
 ["middleware/queue/source/forward/handle.cpp", "middleware/queue/source/forward/state.cpp", "middleware/queue/include/queue/forward/state.h", "middleware/queue/source/forward/main.cpp"],
 [("flows", "middleware/queue/source/forward/handle.cpp"), ("state", "middleware/queue/include/queue/forward/state.h")],
 "forwards (configured instances, where their queues are), flows with their phase and transaction, outstanding lookups, groups alive",
 "messages of a real forward process over IPC, and its reported state", TRACE, "bounded: scripts of 60-120 stimuli, three forwards with up to three instances each, up to six groups; exhaustive model of 7-10 steps")
prop("C18", "The domain starts in order, keeps what is wanted, and leaves nobody behind",
 "The domain manager starts what is configured group by group: nothing in a group is started before everything in the groups it depends on has started, which for servers means that they have connected. It then keeps as many instances as are wanted: an instance that is configured to restart is replaced when it exits, also during boot, one that is not is forgotten, and scaling starts exactly what is missing and stops exactly what is too much - servers that have connected are asked to stop, others are terminated. A restart takes the processes there were, one at a time per alias, from the last, and goes on when the replacement has connected (servers) or started (executables). What is asked for (boot, scale, restart, shutdown) is done in the order it was asked for and is reported as done exactly when it is, whatever dies, hangs or connects late meanwhile. At shutdown everything that is under way is abandoned, everything is taken down in the reverse order, nothing new is started or let in, and the manager ends when, and only when, nobody is left. At most one living process is the singleton of an identity, others are denied. A lookup of a process or a singleton is answered with the one that has connected - at once, or as soon as it does when the requester waits. Only processes of the domain are ever signalled.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all orders of connects, deaths, processes that hang, scalings, restarts, lookups and shutdown, in all configurations of groups, servers and executables",
 "the tests boot and scale a handful of configurations where every process connects at once; what deaths, hangs and late connects in the middle of a boot, scale, restart or shutdown lead to is not tested",
 ["middleware/domain/source/manager/handle.cpp", "middleware/domain/source/manager/state.cpp", "middleware/domain/source/manager/state/order.cpp", "middleware/domain/source/manager/task/create.cpp"],
 [("instances", "middleware/domain/source/manager/state.cpp"), ("order", "middleware/domain/source/manager/state/order.cpp"), ("tasks", "middleware/domain/source/manager/task/create.cpp"), ("connect and lookup", "middleware/domain/source/manager/handle.cpp")],
 "instances per alias with process, whether it is wanted and has connected; queue of tasks; runlevel, singleton, pending lookups",
 "messages and events of a real domain manager, and the real processes it starts and stops", TRACE, "bounded: scripts of 45-90 stimuli, up to four groups and four aliases with up to three instances each; exhaustive model of 4-6 steps with two groups and two aliases")
prop("C21", "A queue lookup leads to a queue that is there, local first, and is answered once",
 "The queue manager answers each queue lookup at most once, and exactly once unless it is discarded or its requester is gone: at once if the queue is known, otherwise - when the requester waits - as soon as a provider is known, and otherwise with 'absent' when the discovery it has asked for has ended, or at shutdown. The answer leads to a provider of that very queue, which has enabled what it is looked up for: the queue group of the domain if that one has it, else the outbound gateway with the best order among those that advertise it at that moment; a lookup on behalf of another domain leads only to local queues, unless it is to be forwarded. What an outbound takes back, resets or dies with, and what a dead queue group had, is never an answer again, and nothing else is forgotten. A lookup discarded in time is never answered, and the reply tells which of the two it was. Discovery is told exactly the queues that are there, with what is enabled, and the names that are remote or waited for. A queue manager in shutdown answers 'absent' to everyone, and ends when the last of its groups has.",
 ["histories", "schedules", "fault_sequences"], "all orders of lookups, discards, ends of discovery, advertisements with changes of order, resets, deaths of outbounds, groups and requesters, and shutdown",
 "the tests look up one queue of one provider; what competing providers, orders that change, partly enabled queues, and deaths between a lookup and its answer lead to is not tested",
 ["middleware/queue/source/manager/handle.cpp", "middleware/queue/source/manager/state.cpp", "middleware/queue/include/queue/manager/state.h"],
 [("lookups", "middleware/queue/source/manager/handle.cpp"), ("providers", "middleware/queue/source/manager/state.cpp")],
 "providers per queue with order and what is enabled, outbounds, groups that live, lookups that wait",
 "messages of a real queue manager, with two real queue groups, over IPC", TRACE, "bounded: scripts of 70-120 stimuli, six queues, four outbounds, five requesters; exhaustive model of 5-7 steps with two lookups and two outbounds")
