#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- server
p("S01", "Queue messages are neither lost nor duplicated",
  "Every message the server accepts for a queue destination stays available until it is consumed, that is, written to a subscription with automatic acknowledgement or acknowledged by the client it was delivered to. Whatever NACKs, unsubscribes, disconnects and connection failures happen, and at whatever point, an unconsumed message is delivered (again) as soon as a subscription to the queue is free to take it. It is never held by two subscriptions at once and never delivered again once consumed.",
  ["histories", "schedules", "crash_points"],
  "All histories of connects, sends, subscribes, ACK/NACK, unsubscribes, graceful and abrupt ends of any number of connections; all interleavings of the connection goroutines and the broker goroutine; connection failure at any byte of any write.",
  "The tests send 100 messages to one auto-ack receiver per queue and never acknowledge, unsubscribe or drop a connection of the server; loss happens only when the end of a connection overlaps a delivery.",
  ["server/processor.go", "server/queue/queue.go", "server/queue/memory_queue.go", "server/client/conn.go", "server/client/subscription.go", "server/client/subscription_list.go"],
  [("hand-off between queue and subscription", "server/queue/queue.go Subscribe/Enqueue/Requeue"),
   ("requeue of everything a finished connection held", "server/client/conn.go cleanupConn/cleanupSubChannel"),
   ("requeue when the subscription is gone", "server/client/conn.go processLoop, case sub := <-subChannel")],
  [("queue storage", "messages waiting", "server/queue/memory_queue.go lists"),
   ("subList", "delivered, not yet acknowledged", "server/client/conn.go"),
   ("subChannel", "assigned, not yet written", "server/client/conn.go")],
  ["bytes written to each client connection", "QueueStorage calls"])

p("S02", "Queues deliver in acceptance order",
  "Messages of one queue are delivered for the first time in the order in which the server accepted them; in particular messages sent by one connection are delivered in the order it sent them (those of a transaction at its COMMIT, in the order they were sent within it). A message that is given back to the queue (by NACK, or because the connection it was assigned to ended, whether or not it had been written yet) is delivered ahead of every message of that queue that was never assigned to a subscription; the mutual order of several messages given back together is left open.",
  ["histories", "schedules"],
  "All interleavings of producers, consumers, NACKs and connection ends; any number of messages waiting.",
  "The one test of order has a single producer and a single consumer and never lets a message be given back.",
  ["server/queue/queue.go", "server/queue/memory_queue.go", "server/processor.go", "server/client/conn.go", "server/client/tx_store.go"],
  [("FIFO list, PushBack for new and PushFront for returned messages", "server/queue/memory_queue.go"),
   ("waiting messages are taken before a subscription is put on the free list", "server/queue/queue.go Subscribe")],
  (), ["MESSAGE frames of each subscription"])

p("S03", "Topics broadcast exactly once to current subscribers",
  "A message sent to a destination that is not a queue is delivered exactly once to every subscription to that destination that the server had registered when it accepted the message and that stays subscribed, and to nobody else; it is not kept for later subscribers. All subscriptions of a topic receive its messages in one common order that respects the order of each sender.",
  ["histories", "schedules"],
  "All interleavings of senders, subscribes, unsubscribes and connection ends, with any number of subscribers per topic and per connection.",
  "The tests have at most three receivers which subscribe before the first message and never leave.",
  ["server/topic/topic.go", "server/topic/manager.go", "server/processor.go", "server/client/conn.go", "server/client/subscription.go"],
  [("fan-out over the subscription list, clones for all but the last", "server/topic/topic.go Enqueue"),
   ("removal of the subscriptions of a finished connection", "server/client/conn.go cleanupConn")],
  (), ["MESSAGE frames of each subscription"])

p("S04", "ACK and NACK settle exactly the right messages",
  "A subscription in client or client-individual mode holds at most one unsettled queue message and receives its next one only after that message was acknowledged or rejected (and then as soon as one is available); an auto subscription receives messages without acknowledging. An ACK settles the message it names, and in client mode also client-mode messages delivered earlier on the same connection, and nothing else; a NACK gives exactly the message it names back to its queue. Repeating an ACK or NACK of a settled message changes nothing, in STOMP 1.1 and 1.2 alike.",
  ["histories", "inputs", "configurations"],
  "All sequences of deliveries, ACKs and NACKs (also repeated, stale, out of order, inside transactions) over several subscriptions of one connection, for every mix of ack modes and for both protocol versions.",
  "No test ever acknowledges a message to the server; unit tests only feed hand-made ids to the list that holds unacknowledged subscriptions.",
  ["server/client/conn.go", "server/client/subscription.go", "server/client/subscription_list.go", "server/queue/queue.go"],
  [("matching of ids", "server/client/subscription.go IsAckedBy/IsNackedBy"),
   ("re-arming after settlement", "server/client/conn.go handleAck/handleNack"),
   ("id assigned at delivery", "server/client/conn.go allocateMessageId")],
  [("Subscription.msgId", "id of the message the subscription holds", "server/client/subscription.go")],
  ["MESSAGE frames", "redelivery after the connection ends"])

p("S05", "Server transactions are all-or-nothing",
  "SEND, ACK and NACK frames that name an open transaction have no effect on any queue, topic or pending message until that transaction is committed; COMMIT then applies all of them, each once, in the order they were sent. ABORT, an ERROR or the end of the connection discards them all. Transactions are private to their connection: equal names on different connections do not interact, BEGIN of an open name and any use of a name that is not open are errors, and a finished name can be begun again.",
  ["histories", "inputs", "crash_points"],
  "All interleavings of frames of several open transactions with non-transactional frames on any number of connections; the connection ending at any point.",
  "The unit tests exercise the store with one transaction and a stub commit function; no test sends a transactional frame to the server.",
  ["server/client/tx_store.go", "server/client/conn.go"],
  [("buffering per transaction and replay at COMMIT", "server/client/tx_store.go Add/Commit/Abort"),
   ("cleanup", "server/client/conn.go cleanupConn")],
  [("transactions", "frames buffered per open transaction", "server/client/tx_store.go")],
  ["MESSAGE, RECEIPT and ERROR frames"])

p("S06", "Receipts and errors answer exactly the right frames",
  "Each frame after the handshake that carries a receipt header and is processed successfully is answered by exactly one RECEIPT naming it, and receipts come in the order of the frames; no other RECEIPT is sent. A frame that cannot be processed is answered by exactly one ERROR (naming the receipt if one was requested) and no RECEIPT; after an ERROR the server sends nothing more, processes nothing more from that connection and closes it. After DISCONNECT the server sends nothing but its RECEIPT.",
  ["histories", "inputs", "schedules"],
  "Every kind of frame, with and without receipt, valid and invalid, at every point of a session, while other connections are active.",
  "The only receipt any server test requests is that of DISCONNECT.",
  ["server/client/conn.go"],
  [("sendReceiptImmediately / sendErrorImmediately", "server/client/conn.go"),
   ("error return ends the processing loop", "server/client/conn.go processLoop")],
  (), ["RECEIPT and ERROR frames", "end of the connection"])

p("S07", "Handshake: negotiated version, authentication, nothing before CONNECT",
  "The server answers a CONNECT or STOMP frame with CONNECTED, naming the highest version both sides support (1.1 or 1.2), exactly when the version lists intersect in 1.1/1.2, the credentials are accepted by the configured authenticator, any heart-beat header is well formed and there is no receipt header; otherwise it answers with ERROR and closes. Any other frame before a successful handshake, and a second CONNECT/STOMP after it, yields ERROR and has no effect.",
  ["inputs", "configurations"],
  "All combinations of command, version list (any order, unknown versions, missing), credentials, heart-beat value, receipt header, and of what is sent before and after.",
  "Unit tests check the version helper on six inputs; the server tests only connect with defaults.",
  ["server/client/conn.go", "server/client/frame.go", "server/processor.go"],
  [("connecting/connected state functions, handleConnect", "server/client/conn.go"),
   ("determineVersion, getHeartBeat", "server/client/frame.go")],
  (), ["first frame the server writes", "end of the connection"])

p("S08", "Messages reach only live subscriptions, under the right id",
  "Each MESSAGE names a subscription that is in place on that connection and whose destination is the one the message was sent to. Once the server has processed an UNSUBSCRIBE, nothing is delivered under that id until it is subscribed again, and a re-used id receives nothing that belonged to its former destination, even if the former subscription still had an unacknowledged message. SUBSCRIBE with an id in use, or UNSUBSCRIBE of an unknown one, is an error; equal ids on different connections are independent.",
  ["histories", "schedules"],
  "All interleavings of SUBSCRIBE, UNSUBSCRIBE, re-use of ids, deliveries and late ACKs on any number of connections.",
  "No server test unsubscribes.",
  ["server/client/conn.go", "server/client/subscription.go", "server/queue/queue.go", "server/topic/topic.go"],
  [("map of live subscriptions checked at delivery", "server/client/conn.go processLoop"),
   ("Unsubscribe in queue and topic", "server/queue/queue.go, server/topic/topic.go")],
  [("subs", "live subscriptions by id", "server/client/conn.go")],
  ["MESSAGE frames"])

p("S09", "One client cannot crash, wedge or disturb the server",
  "No byte sequence and no sequence of frames from a client (malformed, incomplete, out of state, missing or invalid headers, abrupt end) makes the server panic or stop serving, nor changes what other connections observe except through messages that client validly sent and acknowledged. As long as every client reads what it is sent, every frame sent to the server is eventually processed and every deliverable message delivered, however many are in flight.",
  ["inputs", "histories", "schedules"],
  "All byte strings as client input, all frame sequences, all interleavings; bursts larger than every internal buffer.",
  "The tests contain no invalid frame sent to a running server and no burst that fills the internal channels in both directions.",
  ["server/processor.go", "server/client/conn.go", "server/client/subscription.go", "frame/reader.go"],
  [("per-connection error handling", "server/client/conn.go processLoop, handle*"),
   ("channels between connection and broker goroutines", "server/client/conn.go requestChannel, subChannel, writeChannel")],
  (), ["liveness of other connections", "panics"])

p("S10", "Messages arrive with body and headers intact",
  "A MESSAGE delivered by the server has exactly the body of the SEND and all its application headers with their first values (destination and content-type included), plus the id of the receiving subscription and a message-id never used before on that connection; headers of the protocol exchange (receipt, transaction) are not passed on. An ack header is present exactly when the receiving subscription must acknowledge the message, and names it. Copies for different subscribers do not influence each other.",
  ["inputs", "histories"],
  "All bodies (any bytes, empty, NUL, larger than the buffers) and header names/values, any number of subscribers, direct, queued, requeued, transactional and topic delivery.",
  "Tests use short text bodies, one content type and never look at the headers of a delivered message.",
  ["server/client/conn.go", "server/client/subscription.go", "server/topic/topic.go", "frame/frame.go", "frame/header.go"],
  [("allocateMessageId, setSubscriptionHeader, removal of receipt/transaction", "server/client/conn.go, server/client/subscription.go"),
   ("Clone per subscriber", "server/topic/topic.go Enqueue")],
  (), ["MESSAGE frames"])

p("S11", "Server honours the negotiated heart-beats",
  "If a client asks to receive heart-beats every cy ms, CONNECTED announces max(cy, server minimum) and the server never lets more than that time pass without writing something; if it does not ask, none are sent. If the client promised to send every cx ms, a connection on which nothing complete (frame or newline) arrives for twice max(cx, server minimum) is ended then, not before and not much later, and treated as any lost connection; with cx = 0 it is never ended for silence.",
  ["schedules", "inputs", "configurations"],
  "All values of cx, cy and the server minimum, all timings of traffic relative to the timers.",
  "One test with 5 ms heart-beats in real time, which never lets a timer expire on purpose.",
  ["server/client/conn.go", "server/client/frame.go", "server/processor.go"],
  [("read deadline", "server/client/conn.go readLoop"), ("write timer", "server/client/conn.go processLoop")],
  (), ["time stamps of writes", "end of the connection"])

p("S12", "A custom queue storage holds every waiting message",
  "With a user-supplied queue storage, the storage is started before it is used, every accepted queue message that is not handed at once to a free subscription is put into it exactly once (new messages at the tail, returned ones at the head) under the name of its queue, and every message it hands out is delivered or given back. Whenever the server is idle, the messages in the storage plus those held by subscriptions are exactly the accepted unconsumed ones, and no message waits in it while a subscription to that queue is free.",
  ["histories", "schedules"],
  "All histories of queue operations, over several queues.",
  "No test runs the server with a storage of its own.",
  ["server/server.go", "server/processor.go", "server/queue_storage.go", "server/queue/queue.go", "server/queue/storage.go", "server/queue/memory_queue.go"],
  [("Queue on top of Storage", "server/queue/queue.go"), ("Manager", "server/queue/manager.go")],
  (), ["calls of the QueueStorage interface"])

# ---------------------------------------------------------------- client
p("C01", "Client handshake",
  "Connect sends one CONNECT (or STOMP) frame that states the requested host, credentials, heart-beat, versions and custom headers, and succeeds exactly when the server answers with CONNECTED with no version (then 1.0) or a supported one and a well-formed heart-beat, if any; Version, Session and Server then report what the server said. In every other case (ERROR, other frame, unsupported version, end of stream, elapsed context deadline) it returns an error (for an ERROR frame, its message) and no connection; a network connection that Dial opened itself is then closed.",
  ["inputs", "configurations", "fault_sequences"],
  "All option combinations and all server answers, including none and truncated ones.",
  "About ten hand-written answers; nothing looks at resources after a failure.",
  ["conn.go", "conn_options.go", "version.go", "errors.go"],
  [("ConnectWithContext", "conn.go"), ("connOptions.NewFrame", "conn_options.go")],
  (), ["bytes written", "return values"])

p("C02", "Each MESSAGE goes to its subscription, once and in order",
  "Each MESSAGE the server sends is delivered exactly once, with its body (also as read through Message.Read), destination and headers unchanged, on the channel of the subscription whose id it names, in the order received, as long as that subscription has not ended and the program keeps reading its channels (or they have room); all of those received before the subscription's end are delivered before its channel is closed. Messages naming an unknown or ended subscription are dropped without affecting any other, whatever ids the program chose and whatever receipts are outstanding.",
  ["histories", "schedules", "inputs"],
  "All interleavings of messages for several subscriptions, receipts, subscribe and unsubscribe calls and slow consumers; program-chosen and generated ids.",
  "The tests use one subscription at a time with alternating reads and writes.",
  ["conn.go", "subscription.go"],
  [("dispatch by subscription header", "conn.go processLoop"), ("Subscription.readLoop", "subscription.go")],
  [("channels", "receivers by subscription and receipt id", "conn.go processLoop")],
  ["Subscription.C"])

p("C03", "Calls that wait for a receipt return exactly on theirs",
  "Send with a receipt, CommitWithReceipt, AbortWithReceipt and Disconnect return success only after the server's RECEIPT for that very call, and return promptly once it arrives; otherwise they return an error when an ERROR frame arrives, the connection ends or the applicable timeout passes, and never block beyond that. A receipt that arrives after the timeout, is unknown or repeated, does not disturb any later operation.",
  ["histories", "schedules", "fault_sequences"],
  "All orders and delays of receipts, errors and connection ends relative to calls from several goroutines.",
  "Tests answer every receipt at once, or never.",
  ["conn.go", "transaction.go", "send_options.go"],
  [("readReceiptWithTimeout, sendFrame", "conn.go"), ("receipt dispatch", "conn.go processLoop")],
  (), ["return values and times of calls"])

p("C04", "Frames go on the wire once, whole and in call order",
  "Every Send, Subscribe, Unsubscribe, Ack, Nack, Begin, Commit and Abort call that returns success puts exactly one frame with exactly the given destination, body and headers on the wire while the connection lives, and a call that fails before sending puts none. Frames are never interleaved, truncated or reordered with respect to the order of the calls that handed them over, however many goroutines call concurrently and however slow the network is.",
  ["schedules", "inputs", "histories"],
  "All interleavings of calls from any number of goroutines, bursts beyond the queue capacity, bodies beyond the buffer sizes, all send options.",
  "Tests call from one goroutine with one small frame at a time.",
  ["conn.go", "send_options.go", "subscribe_options.go", "frame/writer.go"],
  [("single writer goroutine fed by a channel", "conn.go processLoop"), ("createSendFrame", "conn.go")],
  (), ["bytes written"])

p("C05", "End of the connection is reported everywhere",
  "When the connection ends (ERROR frame, end of stream, read or write failure, missed heart-beats, MustDisconnect, Disconnect) the network connection is closed, every active subscription whose channel is being read receives one final error (at most one where an Unsubscribe is under way) and then the channel is closed, and every call waiting for a receipt returns (with the message of the ERROR frame, where that is what ended the connection). Every later call returns an error (or does nothing, for Disconnect and Begin) without blocking, panicking or writing to the network, in any interleaving with calls in progress.",
  ["schedules", "fault_sequences", "histories"],
  "Every cause of the end, at every point of every pending operation, with any number of subscriptions and callers.",
  "Tests end connections only when nothing else is going on.",
  ["conn.go", "subscription.go"],
  [("sendError, ERROR case, MustDisconnect", "conn.go"), ("closeChannel", "subscription.go")],
  [("closed", "connection is closed", "conn.go")],
  ["Subscription.C", "return values", "Close of the network connection"])

p("C06", "Disconnect is graceful, final and idempotent",
  "Disconnect sends all frames handed over before it, then one DISCONNECT with a receipt as the last frame on the wire (heart-beat newlines may follow), waits for that receipt, closes the network connection and returns nil. If the receipt does not arrive within the disconnect timeout it closes the connection and returns the timeout error; if the server answers with ERROR or goes away it returns an error and the connection gets closed. Further Disconnect or MustDisconnect calls return nil without effect.",
  ["schedules", "fault_sequences"],
  "All interleavings with sends from other goroutines, and all server reactions and delays.",
  "Tests disconnect an idle connection and answer at once or never.",
  ["conn.go"],
  [("Disconnect, MustDisconnect", "conn.go")],
  (), ["bytes written", "return values"])

p("C07", "Unsubscribe completes exactly on its receipt",
  "Unsubscribe sends one UNSUBSCRIBE with the subscription's id and a receipt request, and returns nil as soon as that receipt is in and the program has taken the messages that came before it, with the channel closed after all messages that came before the receipt; without a receipt it returns the unsubscribe-timeout error after that timeout, and if the connection ends it returns too. Active and Read report the end from the start of Unsubscribe, a second Unsubscribe returns the completed error and sends nothing, and an Unsubscribe that fails because of its options leaves the subscription as it was.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of Unsubscribe with incoming messages, the receipt, timeouts, the end of the connection, slow readers and second calls.",
  "The tests that try it fail now and then (a wake-up can be lost), which is why the whole root package is left out of the stable tests.",
  ["subscription.go", "conn.go"],
  [("state machine active/closing/closed", "subscription.go Unsubscribe/closeChannel"), ("UNSUBSCRIBE receipt", "conn.go processLoop")],
  [("state", "active, closing or closed", "subscription.go")],
  ["Subscription.C", "return values", "bytes written"])

p("C08", "Client transactions",
  "Each Begin opens a transaction under an id unique within the process and sends BEGIN; Send, Ack and Nack on it send frames carrying that id (Ack on an auto subscription sends nothing), Commit and Abort send exactly one COMMIT or ABORT with it. After a successful Commit or Abort every further operation on it returns the completed error and sends nothing; after a failed one the transaction is not marked completed.",
  ["histories", "inputs"],
  "All sequences of operations on several open transactions, mixed with operations outside them, with and without receipts, and failures of the connection.",
  "The test runs begin, ack, send, commit/abort once per transaction and never touches a completed one.",
  ["transaction.go", "conn.go", "id.go"],
  [("completed flag", "transaction.go"), ("allocateId", "id.go")],
  (), ["bytes written", "return values"])

p("C09", "ACK/NACK frames are right for every version and mode",
  "Ack sends one ACK that names the message as the negotiated version demands (1.0 and 1.1: subscription and message-id; 1.2: the value of the message's ack header as id), Nack likewise but fails on version 1.0; for auto subscriptions Ack sends nothing and succeeds and Nack fails. A message not received from a server, or lacking the needed header, yields an error and nothing is sent. ShouldAck of a received message says whether its subscription is other than auto.",
  ["inputs", "configurations"],
  "All versions, ack modes and header combinations of received and hand-made messages, inside and outside transactions.",
  "Tests cover the regular combinations with regular headers only.",
  ["conn.go", "ack.go", "message.go", "version.go", "transaction.go"],
  [("createAckNackFrame", "conn.go")],
  (), ["bytes written", "return values"])

p("C10", "Client honours the negotiated heart-beats",
  "If the server's CONNECTED asks for heart-beats every sy ms (sy > 0), the client never lets more than sy ms pass between two writes as long as the network accepts them; if sy is 0 it sends none of its own. If heart-beats from the server were agreed (both the client's requested interval and the server's offer are positive) the connection is ended with a read-timeout error after a silence longer than the larger of the two plus the configured margin times the grace multiplier, and never while a complete frame or a heart-beat newline arrives within that time; if not agreed, silence never ends the connection.",
  ["schedules", "inputs", "configurations"],
  "All offered and requested intervals, margins and multipliers; all timings of traffic relative to the timers.",
  "One test lets the read timeout expire once; the write side test is skipped.",
  ["conn.go", "conn_options.go", "frame/heartbeat.go"],
  [("timers", "conn.go processLoop"), ("negotiation", "conn.go ConnectWithContext")],
  (), ["time stamps of writes", "time of the error on Subscription.C"])

p("C11", "Everything is released when a connection is over",
  "Once a client connection has ended, for whatever reason and with whatever calls, receipts and messages outstanding, and the program drains its subscription channels, no goroutine of the library working for it remains; likewise on the server once the client's network connection has ended. Pending timeouts may delay this only by their configured length.",
  ["schedules", "fault_sequences", "histories"],
  "All causes and moments of the end, all pending operations.",
  "No test looks at goroutines.",
  ["conn.go", "subscription.go", "server/client/conn.go"],
  [("end of readLoop/processLoop/Subscription.readLoop", "conn.go, subscription.go"), ("cleanupConn", "server/client/conn.go")],
  (), ["goroutines alive"])

# ---------------------------------------------------------------- frame
p("F01", "Frames survive encode/decode unchanged",
  "Writing any frame with a valid command, non-empty header names and a body that is delimited by its content-length header (or contains no NUL and has none), and reading it back yields the same command, the same header entries in the same order, and the same body; names and values may contain any bytes, including backslash, colon, CR and LF. On the wire CR, LF, colon and backslash in names and values appear only in escaped form, and a frame ends with exactly one NUL after its body.",
  ["inputs"],
  "All frames; in particular every header name and value over the special characters, and bodies of any bytes and size.",
  "Six fixed frames are round-tripped.",
  ["frame/writer.go", "frame/reader.go", "frame/encode.go"],
  [("Writer.Write", "frame/writer.go"), ("Reader.Read", "frame/reader.go"), ("escape tables", "frame/encode.go")],
  (), ["bytes written, frames read"])

p("F02", "Decoding a byte stream is total and chunk-independent",
  "For every byte stream, reading yields a sequence of frames, heart-beats and finally an error, determined by the bytes alone and not by how they are split into reads: complete valid frames preceding the first defect are all returned exactly, nothing is invented after it, and reading never panics. LF and CR LF line ends are equivalent, a content-length makes the body exactly that long and must be followed by NUL, otherwise the body ends at the first NUL, and unknown commands, lines without a colon, empty header names and invalid content-lengths are errors.",
  ["inputs"],
  "All byte streams and all ways of splitting them.",
  "About ten fixed inputs delivered in one piece or in fixed pieces.",
  ["frame/reader.go", "frame/header.go", "frame/encode.go"],
  [("Reader.Read/readLine", "frame/reader.go"), ("ContentLength", "frame/header.go")],
  (), ["results of Read"])

p("F03", "Headers behave as ordered multimaps, first value wins",
  "After any sequence of Add, Set, Del and AddHeader the entries of a header are those of a list in which Add appends, Set replaces the first value of a name or appends, and Del removes all entries of a name; Get, Contains, GetAll, GetAt and Len report that list, with the first entry of a name giving its value. A clone of a header or frame equals the original and neither is affected by later changes of the other, body included.",
  ["histories", "inputs"],
  "All sequences of operations on a header and its clones.",
  "One fixed sequence of operations.",
  ["frame/header.go", "frame/frame.go"],
  [("Header methods", "frame/header.go"), ("Frame.Clone", "frame/frame.go")],
  (), ["results of the methods"])

# ---------------------------------------------------------------- together
p("E01", "Client and server together deliver exactly once, in order",
  "Between programs using this client library and this server (any supported version and ack mode, over an intact network), every message whose Send with receipt or committed transaction succeeded reaches exactly one consumer of its queue exactly once unless that consumer gives it back or goes away without acknowledging it, messages of one sender in order and bodies intact; and every client call (subscribe, unsubscribe, ack, nack, transactions, disconnect) completes without error and has the effect it documents.",
  ["histories", "schedules", "configurations"],
  "All programs of several clients, versions 1.1 and 1.2, all ack modes, all interleavings.",
  "One test with auto-acknowledge and no receipts, transactions, acknowledgements or unsubscribes; the client is otherwise tested against hand-written answers only.",
  ["conn.go", "subscription.go", "transaction.go", "server/processor.go", "server/client/conn.go", "server/queue/queue.go"],
  [("the two sides of the protocol", "conn.go createAckNackFrame vs server/client/conn.go handleAck; subscription.go Unsubscribe vs handleUnsubscribe")],
  (), ["Subscription.C", "return values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
