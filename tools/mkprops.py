import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="include/maf/utils/serialization/"
CS="include/maf/messaging/client-server/"
CSS="src/common/maf/messaging/client-server/"
UX="src/platforms/unix/maf/messaging/client-server/ipc/"
p("S01","Serialized values read back equal",
 "Any value of a supported type (integers, floating point, enums, strings, sequence and associative containers, pairs, tuples, variants, raw and smart pointers, plain aggregates, user types exposing their fields, and any nesting of these) that is written to an output byte stream and then read from those bytes gives an equal value and reports success. The result does not depend on what the destination held before, and reading consumes exactly the bytes written, so values written one after another read back one after another.",
 ["inputs","programs"],"every value of each listed type within the stated sizes, every previous content of the destination, every short sequence of values in one stream",
 "Tests round-trip a few fixed values into fresh destinations; the claim is over all field values, lengths, alternatives and orderings.",
 [S+"Serializer.h",S+"VariantSerializer.h",S+"Tuplizable.h",S+"OByteStream.h",S+"IByteStream.h"],
 [("per-type serializer specialisations",S+"Serializer.h"),("variant serializer",S+"VariantSerializer.h"),("aggregate to tuple view",S+"3rdparty"),("byte streams",S+"OByteStream.h")])
p("S02","Announced serialized size equals the bytes written",
 "For every value of every supported type that announces its size before it is written, the announced size is exactly the number of bytes that writing the value appends to the stream.",
 ["inputs","programs"],"every value of the supported types within the stated sizes",
 "Frame headers are computed from the announced size; a test sees a handful of sizes, while an error for one alternative, an empty container or a null pointer corrupts every following field.",
 [S+"Serializer.h",S+"VariantSerializer.h"],
 [("size computation per type",S+"Serializer.h"),("variant size",S+"VariantSerializer.h")])
p("S03","Reading arbitrary or truncated bytes is safe and never reports false success",
 "Reading a value of any supported type from an arbitrary byte sequence never accesses memory outside the supplied bytes, never crashes or leaks objects, and reports failure whenever the bytes end before the value is complete. In particular every strict prefix of a correctly written value is rejected, and a length field larger than what remains is rejected without trying to obtain memory for it.",
 ["inputs"],"every byte sequence up to the stated length, for each supported type; every truncation point of every written value",
 "Bytes arrive from other processes; tests only read what the same process wrote in full.",
 [S+"Serializer.h",S+"VariantSerializer.h",S+"IByteStream.h"],
 [("bounds check on reading",S+"IByteStream.h"),("failure propagation through containers, pairs, tuples, pointers",S+"Serializer.h"),("variant index check",S+"VariantSerializer.h")])
p("S04","Byte streams deliver every byte once, in order, and failure is sticky",
 "A read on an input byte stream yields exactly the next bytes and advances by exactly that many, or, when fewer remain, changes nothing but the state, which then reports failure for that and all later reads until reset. End of stream is reported exactly when all bytes have been consumed; copies, moves and views continue from the same position and a view never disturbs the stream it looks at; an output stream contains exactly the concatenation of what was written.",
 ["inputs","histories"],"every content, every sequence of reads and writes with arbitrary sizes (including sizes near the numeric limit), copies, moves and resets at any point",
 "Boundary sizes and state combinations (failed then read, exactly exhausted then read zero bytes, view of a half-read stream) are outside what the examples exercise.",
 [S+"IByteStream.h",S+"OByteStream.h",S+"Buffer.h"],
 [("read and state transitions",S+"IByteStream.h"),("write",S+"OByteStream.h")])
p("I01","A transported message decodes to what was encoded; bad bytes are refused",
 "Encoding any client-server message for transport between processes and decoding the bytes gives a message with the same service, operation, operation code, request number, source address and payload (an absent payload arrives as no payload bytes). Decoding any byte sequence whose message header (or error description) is incomplete reports failure; decoding never reads outside the bytes or crashes, and a header is never half filled in and reported as good. A payload value cut short is reported as a failure when it is read.",
 ["inputs"],"every field value and payload within the stated sizes; every byte sequence and every truncation",
 "The existing test sends one message over one socket; header fields and truncations are not varied.",
 [CSS+"ipc/LocalIPCMessage.cpp",CSS+"ipc/LocalIPCMessage.h",CS+"CSMessage.h",CS+"ipc/local/IncomingPayload.h",CS+"ipc/local/OutgoingPayload.h"],
 [("message encode and decode",CSS+"ipc/LocalIPCMessage.cpp")])
p("I02","A received frame is exactly the bytes sent, however the transport fragments them",
 "For every way the transport splits a frame into partial reads, the receiver hands its observer exactly the payload bytes that were sent, once. If the connection ends or fails before the announced length has arrived, nothing is delivered for it, the connection is closed, and later connections are still served; the receiver never writes outside its buffer and never spins on a closed connection.",
 ["inputs","fault_sequences"],"every fragmentation into reads, every read error and early end of connection, every announced length within the stated bound",
 "A local socket in a test delivers small frames in one read; short reads, signals and peers dying mid-frame do not occur there.",
 [UX+"LocalIPCBufferReceiverImpl.cpp",CSS+"ipc/LocalIPCBufferReceiver.cpp"],
 [("accept and read loop",UX+"LocalIPCBufferReceiverImpl.cpp")])
p("I03","A send succeeds only when the receiver was given the whole frame",
 "Sending a payload reports success only if the complete frame (length followed by payload) was written to the receiver, for every way the transport splits or fails the writes; otherwise it reports a failure status. An absent or inactive receiver is reported as such, and every outcome leaves no connection open.",
 ["inputs","fault_sequences"],"every payload within the bound, every short write, error and connection failure",
 "Tests write to a healthy local socket that takes everything at once.",
 [UX+"LocalIPCBufferSenderImpl.cpp",UX+"SocketShared.h",CSS+"ipc/LocalIPCBufferSender.cpp"],
 [("connect and write loop",UX+"LocalIPCBufferSenderImpl.cpp")])
p("I04","Endpoints stay within the address size limit and own their descriptors",
 "For an endpoint name of any length, building a socket address never writes outside it, and a name that does not fit is refused. Every descriptor the transport opens is closed exactly once, on every success and failure path, and no descriptor it does not own is ever closed.",
 ["inputs","fault_sequences"],"every name length around and beyond the limit; every failing system call",
 "Names in the tests are short and system calls succeed.",
 [UX+"SocketShared.h",UX+"LocalIPCBufferReceiverImpl.cpp",UX+"LocalIPCBufferSenderImpl.cpp"],
 [("path construction and length check",UX+"SocketShared.h"),("descriptor guard",UX+"SocketShared.h")])
p("I05","What is sent over the local transport arrives whole, once and in order",
 "Every message one end of the local transport reports as sent to an address is given to the receiver listening there: whole, exactly once, in the order its sender sent it, however reads and writes are split and whichever senders send at once; a message whose sending is reported as failed and anything not sent never arrives. Sending to an address nobody listens at, before a receiver is set up there and after it was stopped, is reported as unavailable, and one address is taken by one receiver at a time. A receiver stopped while messages come ends, having given out nothing but sent messages. A typed call, update and signal pass through all layers with their values, and shutting down servers and clients leaves no descriptor open.",
 ["inputs","schedules","fault_sequences"],"all interleavings of senders and receiver, all splits of reads and writes, broken connections",
 "The tests send one message at a time to a receiver that is up, on one schedule and whole.",
 [CSS+"ipc/LocalIPCBufferReceiver.cpp",CSS+"ipc/LocalIPCBufferSender.cpp",UX+"LocalIPCBufferReceiverImpl.cpp",UX+"LocalIPCBufferSenderImpl.cpp",CSS+"ipc/LocalIPCServer.cpp",CSS+"ipc/LocalIPCClient.cpp"],
 [("waitAndProcessConnections(), start(), stop()",UX+"LocalIPCBufferReceiverImpl.cpp"),("send(), checkReceiverStatus()",UX+"LocalIPCBufferSenderImpl.cpp"),("delegation",CSS+"ipc/LocalIPCBufferReceiver.cpp")])
p("A01","Addresses, identifiers and aggregates order and compare consistently",
 "Comparison of addresses, of registration identifiers and of types using the library's memberwise comparison is a strict weak order agreeing with equality: irreflexive, asymmetric, transitive, and for any two values exactly one of less, greater or equal holds. Consequently sets and maps keyed by them never lose or duplicate entries.",
 ["inputs"],"all triples of values (names up to the bound, all ports/numbers)",
 "Order laws quantify over all pairs and triples; tests compare a few values.",
 [CSS+"Address.cpp",CS+"Address.h",CS+"RegID.h",S+"Tuplizable.h"],
 [("address comparison",CSS+"Address.cpp"),("registration id comparison",CS+"RegID.h")])
p("A02","Identifiers in use are unique and never the invalid one",
 "Every identifier handed out differs from the reserved invalid value and from every identifier still in use, under any interleaving of threads, and an identifier is only handed out again after it was given back. (Once an identifier type has run through all its values it starts over; uniqueness is claimed up to that point.)",
 ["histories","schedules"],"every sequence of requests and returns within the bound, from two threads under every schedule within the preemption bound",
 "Uniqueness depends on history (returns, wrap-around) and on interleavings.",
 ["include/maf/utils/IDManager.h",CSS+"ServiceProvider.cpp",CSS+"ServiceRequester.cpp"],
 [("id allocation","include/maf/utils/IDManager.h")])
p("Q01","Queues deliver every accepted element exactly once and in order",
 "Each element put into a thread-safe queue is taken out exactly once, by exactly one consumer; elements come out in insertion order, or in priority order for the priority variant. Taking from an empty queue without waiting reports emptiness and never fabricates an element.",
 ["histories","schedules","inputs"],"all sequences of operations within the bound, symbolic elements and priorities, producers and consumers under every schedule within the preemption bound",
 "Loss, duplication and reordering depend on interleavings of push, pop and close that a run samples once.",
 ["include/maf/threading/ThreadSafeQueue.h","include/maf/threading/Queue.h"],
 [("push, wait and pop","include/maf/threading/ThreadSafeQueue.h")])
p("Q02","Closing a queue releases every waiter",
 "After a queue is closed every consumer waiting on it, or about to wait on it, returns instead of blocking forever, whatever the interleaving of the close with the wait. A closed queue accepts no element and hands none out through a waiting call.",
 ["schedules"],"waiters and the closer under every schedule within the preemption bound",
 "A lost wake-up needs the close to fall between the waiter's check and its sleep.",
 ["include/maf/threading/ThreadSafeQueue.h"],
 [("close and wait","include/maf/threading/ThreadSafeQueue.h")])
p("L01","Guarded objects are accessed by one thread at a time and never left locked",
 "While one thread works on an object guarded by the library's atomic-object and lock helpers, no other thread can read or modify it, so concurrent read-modify-write operations are never lost and readers never see a half-made change. Whatever way an access ends, including by exception, the guard is released exactly once.",
 ["schedules","inputs"],"two threads under every schedule within the preemption bound, symbolic values, an exception at any access",
 "Lost updates and leaked locks need particular interleavings or exceptions.",
 ["include/maf/threading/AtomicObject.h","include/maf/threading/Lockable.h","include/maf/threading/Locker.h","include/maf/threading/MutexRef.h"],
 [("guarded access","include/maf/threading/AtomicObject.h"),("lock management","include/maf/threading/Lockable.h")])
p("U01","Continuations on future values run exactly once with the produced outcome",
 "A continuation attached to an asynchronous result runs when the result of the chain is asked for, exactly once, with exactly the value produced, whether it is attached before or after the value exists; an exception produced instead, or a producer that goes away, reaches whoever asks for the value and the continuation does not run. Chained continuations see each other's results in order.",
 ["schedules","inputs"],"symbolic values, success or exception, producer and consumer under every schedule within the bound",
 "Before/after races and exception paths are not exercised by the example tests.",
 ["include/maf/threading/Upcoming.h"],
 [("upcoming value and continuation","include/maf/threading/Upcoming.h")])
p("T01","Thread pools run each accepted task exactly once and shut down cleanly",
 "Every task accepted by a thread pool is run exactly once while the pool is not shut down, on a pool thread; the prioritised pool starts waiting tasks in priority order. A pool never has, nor reports, more threads than its size. Shutting a pool down from outside its threads asks running tasks to stop and waits for them, starts no further ones, deletes waiting tasks that delete themselves, and always returns; a task submitted concurrently with or after the shutdown never runs after it returned.",
 ["schedules","histories"],"pool sizes 1 and 2, up to the stated number of tasks and priorities, shutdown at any point, every schedule within the preemption bound",
 "Races of submission with shutdown and with idle workers occur only in rare schedules.",
 ["src/common/maf/threading/threadpool/StableThreadPool.cpp","src/common/maf/threading/threadpool/PriorityThreadPool.cpp","src/common/maf/threading/threadpool/DynamicCountThreadPool.cpp","include/maf/threading/ThreadPoolImplBase.h"],
 [("worker loop and task queue","include/maf/threading/ThreadPoolImplBase.h")])
p("M01","A processor runs each accepted execution once, in order, on its own thread",
 "Executions accepted by a running processor are run exactly once each, one at a time, on the processor's thread, in the order in which they were accepted, including those posted from inside other executions and from several threads. An execution that throws ends the run call with its exception; the following ones stay in line and run when the processor is run again. An execution bound to a processor for later use is handed over once at each call.",
 ["schedules","histories"],"up to the stated number of executions from two posting threads, every schedule within the preemption bound, exceptions at any execution",
 "Order and exactly-once delivery under concurrent posting and stopping depend on the schedule.",
 ["src/common/maf/messaging/Processor.cpp","include/maf/messaging/Processor.h"],
 [("execution queue and run loop","src/common/maf/messaging/Processor.cpp")])
p("M02","Stopping a processor is prompt, final and never blocks forever",
 "After a processor is stopped it takes no further execution (at most the one already taken is completed), its run call and any thread waiting for it return, and posting to it is refused. Threads waiting for the result of an execution that can no longer run are released, and stopping from inside an execution, from another thread or twice is safe.",
 ["schedules"],"stop at any point relative to start, post and wait, from inside or outside, every schedule within the preemption bound",
 "The dangerous cases are races between stop and start, post or wait.",
 ["src/common/maf/messaging/Processor.cpp","include/maf/messaging/Processor.h"],
 [("stop and thread join","src/common/maf/messaging/Processor.cpp")])
p("M03","Messages reach exactly the handlers connected for their type",
 "A message sent or posted to a processor invokes every handler that is connected for that message's type when it is delivered exactly once, in connection order, on the processor's thread, with the values the sender put in, and invokes no other handler. A disconnected handler is never invoked again, even when disconnected from inside a handler of the same message, and connecting or disconnecting during delivery is safe.",
 ["histories","schedules","inputs"],"all sequences of connect, disconnect, post within the bound, symbolic payloads, handlers that connect or disconnect",
 "Delivery depends on the history of connections; reentrancy and races with delivery are not tested.",
 ["src/common/maf/messaging/Processor.cpp","include/maf/messaging/Processor.h","include/maf/messaging/MsgConnectionGroup.h"],
 [("handler table and dispatch","src/common/maf/messaging/Processor.cpp"),("connection handles","include/maf/messaging/Processor.h")])
p("M04","Waiting for an execution gives its outcome exactly",
 "A blocking execution or message send on a processor returns only after the execution finished, with exactly the value it returned or the exception it threw, from any thread. Issued from inside an execution of the same processor it runs immediately instead of deadlocking.",
 ["schedules","inputs"],"symbolic results, exceptions, callers inside and outside the processor thread, every schedule within the preemption bound",
 "Result hand-over and self-calls under races are not covered by example tests.",
 ["src/common/maf/messaging/Processor.cpp","include/maf/messaging/Processor.h"],
 [("waitable execution","include/maf/messaging/Processor.h")])
p("M05","Routing finds exactly the live processor with the given identity",
 "At any time at most one processor is reachable under an identity; a message routed to an identity reaches that processor and no other, and routing to an absent identity fails without effect. Broadcast reaches every registered processor once, and observers of a processor's availability are told of each appearance and disappearance.",
 ["histories","schedules"],"all sequences of create, remove, find, route within the bound; two threads creating the same identity under every schedule within the preemption bound",
 "Uniqueness is broken only by racing creations or particular histories.",
 ["src/common/maf/messaging/Router.cpp","src/common/maf/messaging/Routing.cpp","include/maf/messaging/Routing.h","src/common/maf/messaging/Processor.cpp"],
 [("identity table","src/common/maf/messaging/Router.cpp")])
p("C01","Timers fire neither early nor out of order, and as often as promised",
 "A timer's callback never runs before its interval has elapsed since it was started; a single-shot timer fires at most once and a cyclic one keeps firing; among several timers the earlier deadline fires first, whatever the order in which they were started. No started timer is forgotten because another one was started, stopped, restarted or fired.",
 ["histories","inputs","schedules"],"up to three timers with symbolic intervals, every sequence of start, restart, stop and passage of time within the bound",
 "Deadlines and interleavings of start/stop/fire form an infinite space; real-clock tests see a few millisecond values.",
 ["src/common/maf/messaging/Timer.cpp","include/maf/messaging/Timer.h","include/maf/messaging/SignalTimer.h"],
 [("deadline ordering and expiry","src/common/maf/messaging/Timer.cpp")])
p("C02","A stopped timer stays silent",
 "Once stopping a timer has returned, its callback is not invoked again until it is started anew, even if its deadline had already passed when it was stopped; destroying a timer stops it; restarting moves the deadline to a full interval from the restart.",
 ["histories","schedules"],"every sequence of start, stop, restart, destroy and time within the bound",
 "Needs a stop that races with expiry or follows it.",
 ["src/common/maf/messaging/Timer.cpp","src/common/maf/messaging/SyncTimer.cpp"],
 [("stop and restart","src/common/maf/messaging/Timer.cpp")])
p("C03","The blocking timer waits its interval unless stopped",
 "A blocking timer invokes its callback once its interval has elapsed and not before; when stopped earlier it returns promptly without invoking the callback, in every interleaving of start and stop. Restarting it while it waits begins the interval anew, whenever another thread does so.",
 ["schedules","inputs"],"symbolic interval, stop at any point, every schedule within the preemption bound",
 "The stop must race with the start of the wait or with expiry.",
 ["src/common/maf/messaging/SyncTimer.cpp","include/maf/messaging/SyncTimer.h"],
 [("wait and stop","src/common/maf/messaging/SyncTimer.cpp")])
p("G01","Emitting a signal calls each connected slot exactly once, in order",
 "Emitting a signal invokes every slot connected at that moment exactly once, in connection order, with the emitted values, and no slot that is not connected. Slots disconnected during an emission are not called afterwards, slots connected during an emission do not corrupt it, and the reported number of connections is the number of live ones. (Emitting a signal from inside one of its own slots is excluded: the library rejects it.)",
 ["histories","inputs"],"all sequences of connect, disconnect, emit within the bound, slots that connect, disconnect or emit, symbolic values, single- and multi-threaded variants",
 "Reentrant modification during emission is a history property; tests fix a few scenarios.",
 ["include/maf/utils/SignalSlots.h"],
 [("slot list and emission","include/maf/utils/SignalSlots.h")])
p("G02","Connections end safely: handles, scoped handles and tracked owners",
 "Disconnecting a connection, destroying a scoped connection, or destroying the object a slot is bound to ends exactly that connection and no other, at any time including from inside the slot and after the signal itself is gone, without touching freed memory. A slot is never called after its connection ended, and a throwing slot leaves the signal usable.",
 ["histories"],"all sequences of connect (plain, scoped, tracked, connection-aware), disconnect, destruction and emission within the bound, throwing slots",
 "Lifetime errors depend on destruction order and reentrancy.",
 ["include/maf/utils/SignalSlots.h"],
 [("connection handles and trackable owners","include/maf/utils/SignalSlots.h")])
p("G03","Observables notify exactly when their value changes",
 "Assigning to an observable value notifies its observers exactly once, with the new value, if and only if the value differs from the previous one; silent assignment never notifies; observers can read the new value from inside the notification. A value edited through a mutable handle is stored, and observers are notified once when the handle is released if it changed.",
 ["inputs","histories"],"symbolic values, all sequences of operations within the bound, every threading variant",
 "Equal/unequal assignments over all values and nested edits are not enumerated by tests.",
 ["include/maf/utils/Observable.h"],
 [("assignment and notification","include/maf/utils/Observable.h")])
p("P01","A service answers each request exactly once, to the requester that made it",
 "A request delivered to a service provider invokes the handler registered for that operation exactly once, and whatever the handler, the client (abort) and shutdown do, in any order, at most one final answer is sent for it (progress updates may precede it, none follows), carrying the same request number and going to the client that asked. A request for an operation nobody handles is answered with an error. The handler's abort callback is told exactly once when the client gives up or the service ends before the answer.",
 ["histories","schedules"],"all sequences of request, reply (value or error, repeated), abort and shutdown within the bound; reply racing with abort under every schedule within the preemption bound",
 "Double answers and lost answers need reply, abort and shutdown to interleave.",
 [CSS+"ServiceProvider.cpp",CSS+"Request.cpp",CS+"RequestIF.h"],
 [("request table and reply","src/common/maf/messaging/client-server/Request.cpp"),("request dispatch",CSS+"ServiceProvider.cpp")])
p("P02","Status and signal updates go to exactly the registered clients",
 "A client that registered for a property or signal receives every update made while it is registered, in order, with the values published, and none after it unregistered; other clients and other operations receive nothing. Publishing a property value equal to the current one sends nothing, a newly registered client is told the current value, also when it changes meanwhile (what it is told last is the current one), and asking for a property's value is answered once with the current one. A client that has gone is forgotten and does not keep others from being told; a service that goes down forgets its clients, also while it publishes.",
 ["histories","inputs","schedules"],"all sequences of register, unregister, publish within the bound for two clients and two operations, symbolic values",
 "Depends on the history of registrations; tests do not run the client-server stack.",
 [CSS+"ServiceProvider.cpp",CS+"ServiceProviderIF.h"],
 [("registration table and broadcast",CSS+"ServiceProvider.cpp")])
p("P03","Each request's callback runs once, with the response to that request",
 "For every request a client sends, the callback given with it is invoked once for each progress update that carries the request's number and then exactly once with the final response, receiving that message's payload (or error) and never that of another request; nothing is invoked after the final response, for a response nobody waits for, or after an abort. A waiting call returns exactly the final response, or that it timed out (and then the request is withdrawn), or that the service went away. When the service becomes unavailable, pending callbacks are released and waiting calls return instead of hanging. Aborting something that is not pending sends nothing.",
 ["histories","inputs"],"all sequences of request, response (any order, duplicate, unknown number), abort and availability change within the bound",
 "Matching must hold for all orders and numbers of concurrent requests.",
 [CSS+"ServiceRequester.cpp"],
 [("pending request table",CSS+"ServiceRequester.cpp")])
p("P04","Client registrations are announced, notified and withdrawn exactly",
 "A client announces interest in a property or signal to the service when the first local observer registers and withdraws it when the last one unregisters, and not otherwise. Every registered observer receives each update exactly once until it unregisters, and a new observer of a property whose value is known is told it, before and not after any later one; observers that come and go at once, on several threads, are announced as long as there is one; unregistering an unknown registration sends nothing. The cached property value is the last one received and is forgotten when its last observer unregisters.",
 ["histories","inputs","schedules"],"all sequences of register, unregister, update, availability change within the bound, symbolic values; interleavings of two threads",
 "History property over several observers; the client side has no running test.",
 [CSS+"ServiceRequester.cpp"],
 [("registration table and property cache",CSS+"ServiceRequester.cpp")])
p("P05","Service availability is tracked and reported exactly on change",
 "Observers of a service's availability are told each change exactly once with the old and new state, in the order of the changes even when several threads report them, and are told on registering when it is available, never leaving them with an older state than the current one; observers may register and unregister from inside a notification. Requests and registrations towards an unavailable service are refused without being sent; when a service disappears, waiting calls are released at once. A client that loses its server reports all that server's services unavailable, and a server tells its clients when each service starts and stops, and on shutdown that all have ended.",
 ["histories","schedules"],"all sequences of availability notifications (including repeated ones), registrations and requests within the bound; interleavings of two threads",
 "Repeated and out-of-order availability notices are not produced by tests.",
 [CSS+"ServiceRequester.cpp",CSS+"ClientBase.cpp",CSS+"ServerBase.cpp"],
 [("status tracking",CSS+"ServiceRequester.cpp"),("status fan-out",CSS+"ClientBase.cpp")])
p("P06","Messages are dispatched only to the provider or requester they name",
 "A client or server endpoint hands an incoming message to the provider or requester registered for the service it names, and to no other; asking an endpoint for a service's provider or requester always gives the same one, and a message for an unknown service is reported as undelivered without effect; also when other services are asked for at the same time on another thread.",
 ["histories","inputs"],"all sequences of register, unregister, message within the bound over several services",
 "Depends on registration history; no running test covers the endpoints.",
 [CSS+"ServerBase.cpp",CSS+"ClientBase.cpp",CSS+"ServerBase.h"],
 [("service tables",CSS+"ServerBase.cpp")])
p("P07","A stub and proxy pair carries values end to end unchanged",
 "Through a connected proxy and stub in one process, a request's handler sees exactly the input the caller passed, and the caller sees exactly the output or error the handler replied, once per request; property changes and signals published by the stub arrive at the proxy's observers, and at listeners on the stub itself, with the published values. Both asynchronous and waiting calls behave so. Every callback runs through the executor its proxy or stub was given, and through no other; a callback that is missing or has no executor is refused with a status saying so, and a waiting call with a time limit is given up when that is over.",
 ["inputs","histories","schedules"],"symbolic inputs, outputs and errors; sequences of calls and publications within the bound",
 "No runnable test drives the full path.",
 [CS+"BasicProxy.h",CS+"BasicStub.h",CSS+"itc/Client.cpp",CSS+"itc/Server.cpp"],
 [("typed proxy",CS+"BasicProxy.h"),("typed stub",CS+"BasicStub.h")])
p("P08","Over the local transport clients find services, follow them and get answers",
 "A client of a local (inter-process) server learns which of the server's services are available, whichever of the two starts first, and follows services, and servers that are gone for longer than the client's monitoring interval, as they come and go; a refusal of its first message only delays that. Through a typed proxy and stub on that transport, inputs, outputs, errors, property values and signals arrive exactly as sent, requests are answered once, each to the caller that asked, also on several threads; callbacks run through the executor of their proxy or stub; and a message cut short is never taken for a value.",
 ["inputs","histories","schedules"],"symbolic values and service names; sequences of calls, publications, starts and stops, and schedules within the bound; every truncation of a payload",
 "The tests of the local transport cannot run here, and sample one order of starts and one value.",
 [CSS+"ipc/LocalIPCClient.cpp",CSS+"ipc/LocalIPCServer.cpp",CSS+"ipc/LocalIPCMessage.cpp",CS+"ipc/local/ParamTrait.h",CSS+"ServerBase.cpp",CSS+"ClientBase.cpp"],
 [("monitoring of the server",CSS+"ipc/LocalIPCClient.cpp"),("registered clients are told",CSS+"ipc/LocalIPCServer.cpp"),("typed payloads",CS+"ipc/local/ParamTrait.h")])
p("P09","Shutting down leaves nobody waiting, and servers can be set up again",
 "Over the local transport, shutting down all servers, all clients or both returns, and every waiting call that was under way returns without an invented value; an asynchronous request is answered at most once. Shutting down the servers stops every service they serve: requests under way are aborted once and can no longer be answered, a call made meanwhile gets its own answer or none, and the clients' observers are told once that the service ended. Doing it again does no harm, and a service set up afterwards at the same address is found and answered to existing proxies.",
 ["inputs","histories","schedules"],"servers, clients or both; with and without pending requests and waiting calls; rounds of shutting down and setting up again; interleavings of the shutdown with a call",
 "No test shuts anything down while a call is under way.",
 [CSS+"CSMgmt.cpp",CSS+"ServerFactory.cpp",CSS+"ClientFactory.cpp",CSS+"ServerBase.cpp",CSS+"ClientBase.cpp",CSS+"ipc/LocalIPCServer.cpp",CSS+"ipc/LocalIPCClient.cpp"],
 [("shutting down",CSS+"CSMgmt.cpp"),("servers by address",CSS+"ServerFactory.cpp"),("end of a server",CSS+"ServerBase.cpp"),("end of a client",CSS+"ClientBase.cpp")])
p("P10","Connections are made once per address and kept apart",
 "All proxies for one server address share one connection, and so do all services at one address, also when several threads make them at once. Requests, updates, signals and availability reach exactly the service named, at the address and over the kind of connection named, and every proxy and observer of it, whatever other services of the same name there are. Where a connection cannot be had, because the address is taken or the kind is unknown, no proxy or stub is handed out, everything else goes on, and it can be had later.",
 ["inputs","histories","schedules"],"every value; any one of five services not served, used or ending; stub, proxy or unknown kind refused; two threads making proxies or stubs under every schedule within the preemption bound",
 "Tests use one service at one address, and no address is ever taken.",
 [CSS+"ClientFactory.cpp",CSS+"ServerFactory.cpp",CSS+"CSMgmt.cpp",CSS+"ClientBase.cpp",CSS+"ServerBase.cpp",CSS+"ipc/LocalIPCClient.cpp",CSS+"ipc/LocalIPCServer.cpp"],
 [("clients by kind and address",CSS+"ClientFactory.cpp"),("servers by kind and address",CSS+"ServerFactory.cpp"),("services of a server",CSS+"ServerBase.cpp"),("services of a client",CSS+"ClientBase.cpp")])
p("E01","Enumerators are numbered as declared and print their own names",
 "For an enumeration declared through the library, the declared enumerators have the values their declaration gives them, and streaming any declared value prints exactly its declared name.",
 ["inputs","programs"],"all enumerators of the declarations in the harness and in the library",
 "The generated conversion is a preprocessor expansion; tests print one value of one declaration.",
 ["include/maf/utils/StringifyableEnum.h"],
 [("declaration parsing and lookup","include/maf/utils/StringifyableEnum.h")])
p("E02","Errors keep their code and description; copies are independent",
 "A client-server error reports exactly the code and description it was created with; a clone is equal to and independent of the original; two errors are equal exactly when code and description are equal; and it survives transport unchanged.",
 ["inputs"],"all codes and descriptions up to the bound",
 "Quantifies over all pairs of errors.",
 [CSS+"CSError.cpp",CS+"CSError.h"],
 [("error object",CSS+"CSError.cpp")])
U="include/maf/utils/"
p("D01","A text dump states every part of a value once, in order and in its layout",
 "Dumping a value of a supported type (numbers, booleans, enumerators by number, text, pairs, sequence and associative containers, tuples, variants, pointers by what they point to, plain aggregates and types exposing their fields, nested in any way) writes each of its parts exactly once and in order, sequences and tuples in square brackets, maps in braces as key and value, parts separated by commas. At a negative level nothing else is written; otherwise each part is on its own line, indented by two blanks per level. A declared object is dumped with every member's name and value. A dump stream keeps the level it was last given and passes undumped text and line ends through.",
 ["inputs","programs"],"every value of the listed types within the stated sizes, levels -1 to 2",
 "Tests look at a few dumps of a few types; the claim is for all values, sizes and nestings, including containers whose elements are proxies.",
 [S+"Dumper.h",S+"AggregateDump.h",S+"VariantDump.h",S+"Internal/SerializableObjectImpl.mc.h"],
 [("per-type dumpers",S+"Dumper.h"),("dump stream",S+"Dumper.h"),("dump of declared objects",S+"Internal/SerializableObjectImpl.mc.h")])
p("O01","A log message reaches its sink exactly when its level is enabled",
 "After any sequence of initialising, changing, enabling, disabling and stopping, a level is allowed exactly when it was enabled last; enabling a level leaves the others as they were, from several threads too. A message logged at an allowed level reaches exactly one sink once: information, debug and verbose the output sink, the others the error sink (which is the output sink unless one was given), under its level's name and unabridged; at a level that is not allowed nothing is written and the logging macros do not even evaluate their arguments.",
 ["histories","inputs","schedules"],"every short sequence of changes of levels and sinks with every set of levels, every level of message, every interleaving of two threads changing levels",
 "No test configures the logger; which level reaches which sink depends on the history of changes.",
 ["src/common/maf/logging/Logger.cpp","include/maf/logging/Logger.h"],
 [("levels and sinks","src/common/maf/logging/Logger.cpp"),("logging functions and macros","include/maf/logging/Logger.h")])
p("U02","Scope guards, measurements, bound calls, chains and lookups do their work once",
 "A call registered for the end of a scope runs exactly once when the scope ends, also by an exception. A time measurement reports the time since it was (re)started exactly once, when stopped or destroyed, wherever it was moved, and never after it was stopped or aborted. A bound call passes on the values it was made with, whatever became of the originals; a chain of functions calls each stage once, in order, with the result of the one before. A lookup under one or two keys gives the stored value or an empty one and changes nothing, and comparing two tuples marks exactly the parts that differ.",
 ["inputs","histories"],"every value; every short history of a measurement",
 "Tests run one scope, one measurement; the claims are over histories and values.",
 [U+"CallOnExit.h",U+"TimeMeasurement.h",U+"cppextension/Invoker.h",U+"ProcessorChain.h",U+"containers/Map2D.h",U+"containers/Map.h",U+"cppextension/TupleDiff.h",U+"cppextension/TupleManip.h"],
 [("scope guard",U+"CallOnExit.h"),("time measurement",U+"TimeMeasurement.h"),("bound call",U+"cppextension/Invoker.h"),("function chain",U+"ProcessorChain.h"),("lookups",U+"containers"),("tuple comparison",U+"cppextension/TupleDiff.h")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
