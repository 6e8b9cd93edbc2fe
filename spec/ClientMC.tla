----------------------------- MODULE ClientMC -----------------------------
(***************************************************************************)
(* A design of the client library, composed with the specification         *)
(* ClientConn of what a program and a server may see of it.                *)
(*                                                                         *)
(* The design: calls hand frames over to one writer in the order in which  *)
(* they get the connection's mutex (wq); a reader takes the server's       *)
(* frames one by one (rq) and answers the calls that wait, or puts         *)
(* messages into the channels of the subscriptions (ch); the connection    *)
(* ends once, for the first cause it meets.  Every step that can be seen   *)
(* from outside adds an event to hist, which moves the states S that       *)
(* ClientConn may be in (it may not be clear which call wrote a frame);    *)
(* Accepted says that the specification permits the event.  The other      *)
(* invariants say in terms of the history alone what the properties mean,  *)
(* and so check the specification as well as the design.                   *)
(*                                                                         *)
(* With EAGER = TRUE program and server act at any time.  With EAGER =     *)
(* FALSE they act when everything else has come to rest, and what happens  *)
(* by itself happens in a fixed order: every state at rest stands for one  *)
(* script, which is printed and replayed into the real library.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MENU,    \* what program and server may do
          STEPS,   \* how often
          EAGER

VARIABLES hist, S, bad, D, now, left, script
vars == <<hist, S, bad, D, now, left, script>>

EvAt(i) == hist[i]
C == INSTANCE ClientConn WITH Ev <- EvAt, Tol <- 2000, Late <- 40000000, Real <- FALSE

Sec == 1000000
Connect == [e |-> "call", op |-> "connect", k |-> 1, t |-> 0, bad |-> FALSE, cb |-> FALSE, cmd |-> "CONNECT", disT |-> 30 * Sec,
            dl |-> 0, hbe |-> 5 * Sec, hdr |-> <<>>, host |-> "default", login |-> "", pass |-> "", msgT |-> 10 * Sec, mul |-> 10,
            rcvT |-> 30 * Sec, unsT |-> 30 * Sec, recv |-> 0, send |-> 0, vers |-> <<"1.2">>]
Prefix == <<Connect,
            [e |-> "wire", t |-> 0, f |-> [cmd |-> "CONNECT", b |-> "", h |-> <<<<"host", "default">>, <<"heart-beat", "0,0">>, <<"accept-version", "1.2">>>>]],
            [e |-> "srv", t |-> 0, f |-> [cmd |-> "CONNECTED", b |-> "", h |-> <<<<"version", "1.2">>>>]],
            [e |-> "ret", k |-> 1, t |-> 0, r |-> "ok", m |-> "", conn |-> TRUE, cb |-> <<>>, ses |-> "", srv |-> "", ver |-> "1.2"]>>

RECURSIVE Ends(_, _)
Ends(s, i) == IF i > 4 THEN s ELSE Ends(CHOOSE x \in C!Step(s, Prefix[i], i) : TRUE, i + 1)

\* wq: calls whose frames have been handed over; rq: events of the server not yet read
\* call: ph: "new" (has not got the mutex), "wait" (for an answer), "fin" (about to return), "done"
\* sub: st: "pend", "reg" (messages are put into its channel), "off"; ch: "srv" with an event, "err", "note", "close"
NewD == [wq |-> <<>>, rq |-> <<>>, call |-> <<>>, sub |-> <<>>, tx |-> <<>>,
         disc |-> FALSE, closed |-> FALSE, dead |-> FALSE, net |-> TRUE]

Init == /\ hist = Prefix
        /\ S = {Ends(C!InitState, 1)}
        /\ bad = {}
        /\ D = NewD /\ now = 0 /\ left = STEPS /\ script = <<>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Num(k) == ToString(k)

\* event e has been seen, the design is in state d
Emit(e, d) == /\ hist' = Append(hist, e)
              /\ LET l == Len(hist) + 1
                     T == UNION {IF C!Check(s, e, l) = {} THEN C!Step(s, e, l) ELSE {} : s \in S} IN
                 /\ S' = T
                 /\ bad' = IF T = {} THEN UNION {C!Check(s, e, l) : s \in S} ELSE {}
              /\ D' = d
Unseen(d) == D' = d /\ UNCHANGED <<hist, S, bad>>

NextK == Cardinality(DOMAIN D.call) + 2
Calls(op) == {k \in DOMAIN D.call : D.call[k].op = op}
Ret_(d, k, res) == [d EXCEPT !.call[k].ph = "fin", !.call[k].res = res]

------------------------------------------------------------------------------
(* what program and server do *)
Mode(op) == IF op = "subc" THEN "client" ELSE "auto"
CallEv(op, k, x) ==
  CASE op \in {"send", "sendr", "txsend"} ->
         [e |-> "call", op |-> "send", k |-> k, t |-> now, dest |-> "/q", ct |-> "", b |-> "b" \o Num(k), len |-> "2",
          tx |-> IF op = "txsend" THEN x ELSE 0, opts |-> IF op = "sendr" THEN <<<<"receipt", "", "">>>> ELSE <<>>]
    [] op \in {"sub", "subc"} -> [e |-> "call", op |-> "sub", k |-> k, t |-> now, dest |-> "/q", ack |-> Mode(op), opts |-> <<>>, id |-> "", how |-> "chan"]
    [] op = "unsub" -> [e |-> "call", op |-> "unsub", k |-> k, t |-> now, sub |-> x, opts |-> <<>>]
    [] op \in {"ack", "nack"} -> [e |-> "call", op |-> op, k |-> k, t |-> now, tx |-> 0, sub |-> hist[x].k, mh |-> hist[x].h, real |-> TRUE]
    [] op = "active" -> [e |-> "call", op |-> "active", k |-> k, t |-> now, sub |-> x]
    [] op = "begin" -> [e |-> "call", op |-> "begin", k |-> k, t |-> now, id |-> "t" \o Num(k), plain |-> FALSE]
    [] op \in {"commit", "commitr", "abort"} -> [e |-> "call", op |-> IF op = "abort" THEN op ELSE "commit", k |-> k, t |-> now, tx |-> x, rc |-> op = "commitr"]
    [] OTHER -> [e |-> "call", op |-> op, k |-> k, t |-> now]

\* the subscriptions, or transactions, there are to act on
Args(op) == CASE op \in {"unsub", "active"} -> {n \in DOMAIN D.sub : D.call[n].ph = "done"}
              [] op \in {"txsend", "commit", "commitr", "abort"} -> {k \in Calls("begin") : /\ D.call[k].ph = "done" /\ D.call[k].res = "ok"
                                                                                            \* one call at a time may use a transaction
                                                                                            /\ \A j \in DOMAIN D.call : D.call[j].x = k => D.call[j].ph = "done"}
              [] op \in {"ack", "nack"} -> {i \in DOMAIN hist : hist[i].e = "recv" /\ hist[i].r = "msg"}
              [] OTHER -> {0}

Call(op) ==
  \E x \in Args(op) :
    LET k == NextK IN
    /\ Emit(CallEv(op, k, x),
            [D EXCEPT !.call = Put(@, k, [op |-> IF op = "subc" THEN "sub" ELSE op, x |-> x, ph |-> "new", res |-> "", rid |-> "", at |-> now]),
                      !.sub = IF op \in {"sub", "subc"} THEN Put(@, k, [mode |-> Mode(op), st |-> "pend", ch |-> <<>>, rd |-> FALSE, shut |-> FALSE, un |-> FALSE]) ELSE @])
    /\ script' = Append(script, IF x = 0 THEN <<op>> ELSE <<op, Num(IF op \in {"ack", "nack"} THEN Cardinality({i \in Args(op) : i <= x}) ELSE x)>>)

Srv(f, a) ==
  /\ D.net /\ Emit([e |-> "srv", f |-> f, t |-> now], [D EXCEPT !.rq = Append(@, Len(hist) + 1)])
  /\ script' = Append(script, a)
Fr(cmd, h) == [cmd |-> cmd, h |-> h, b |-> "m" \o Num(Len(hist))]

Server(what) ==
  CASE what = "msg" -> \E n \in {n \in DOMAIN D.sub : D.call[n].rid # ""} :
                         Srv(Fr("MESSAGE", <<<<"destination", "/q">>, <<"subscription", D.call[n].rid>>, <<"message-id", "1">>>>
                                              \o (IF D.sub[n].mode = "client" THEN <<<<"ack", "a" \o Num(Len(hist))>>>> ELSE <<>>)), <<"msg", Num(n)>>)
    [] what = "rcpt" -> \E k \in {k \in DOMAIN D.call : D.call[k].op # "sub" /\ D.call[k].rid # ""} :
                         Srv(Fr("RECEIPT", <<<<"receipt-id", D.call[k].rid>>>>), <<"rcpt", Num(k)>>)
    [] what = "odd" -> Srv(Fr("RECEIPT", <<<<"receipt-id", "nobody">>>>), <<"odd">>)
    [] what = "err" -> Srv(Fr("ERROR", <<<<"message", "no">>>>), <<"err">>)
    [] what = "eof" -> /\ D.net /\ script' = Append(script, <<"eof">>)
                       /\ Emit([e |-> "seof", t |-> now], [D EXCEPT !.rq = Append(@, 0), !.net = FALSE])
    [] what = "reset" -> /\ D.net /\ script' = Append(script, <<"reset">>)
                         /\ Emit([e |-> "sreset", t |-> now], [D EXCEPT !.rq = <<0>>, !.net = FALSE])

\* the program reads a subscription's channel from now on
Reading(n) == ~D.sub[n].rd /\ D.call[n].ph = "done" /\ D.call[n].res = "ok"
Read(n) == Emit([e |-> "reading", k |-> n, t |-> now], [D EXCEPT !.sub[n].rd = TRUE])

------------------------------------------------------------------------------
(* what happens by itself *)
Fails == D.closed \/ D.disc \/ D.dead

\* a call gets the mutex
Enter(k) ==
  LET c == D.call[k]
      hand(d, ph) == [d EXCEPT !.wq = Append(@, k), !.call[k].ph = ph, !.call[k].res = "ok"] IN
  CASE c.op = "active" -> Unseen([Ret_(D, k, "ok") EXCEPT !.call[k].rid = IF D.sub[c.x].un \/ D.sub[c.x].shut THEN "" ELSE "yes"])
    [] c.op = "ack" /\ D.sub[hist[c.x].k].mode = "auto" -> Unseen(Ret_(D, k, "ok"))
    [] c.op = "nack" /\ D.sub[hist[c.x].k].mode = "auto" -> Unseen(Ret_(D, k, "nackauto"))
    [] c.op = "disc" -> Unseen(IF Fails THEN Ret_(D, k, "ok") ELSE [hand(D, "wait") EXCEPT !.disc = TRUE])
    [] c.op = "must" -> Unseen(IF D.closed \/ D.dead THEN Ret_(D, k, "ok") ELSE [Ret_(D, k, "ok") EXCEPT !.closed = TRUE])
    [] c.op = "unsub" -> Unseen(IF D.sub[c.x].un \/ D.sub[c.x].shut THEN Ret_(D, k, "completedsub")
                                ELSE IF Fails THEN [Ret_(D, k, "closed") EXCEPT !.sub[c.x].un = TRUE]
                                ELSE [hand(D, "wait") EXCEPT !.sub[c.x].un = TRUE])
    [] c.op \in {"txsend", "commit", "commitr", "abort"} /\ c.x \in DOMAIN D.tx -> Unseen(Ret_(D, k, "completedtx"))
    [] Fails -> Unseen(Ret_(D, k, IF c.op \in {"send", "sendr"} THEN "already" ELSE "closed"))
    [] c.op \in {"sendr", "commitr"} -> Unseen(hand(D, "wait"))
    [] OTHER -> Unseen(hand(D, "fin"))

\* the values that the library makes up
Value(k, x) == IF x[2] = C!Fresh THEN <<x[1], (IF x[1] = "id" THEN "s" ELSE "r") \o Num(k)>> ELSE x
Frame(k) == LET x == C!Exp(CHOOSE s \in S : TRUE, k) IN [cmd |-> x.cmd, b |-> x.b, h |-> [i \in DOMAIN x.h |-> Value(k, x.h[i])]]
RidOf(f) == IF f.cmd = "SUBSCRIBE" THEN C!Val(f, "id") ELSE C!Val(f, "receipt")

CanWrite == D.wq # <<>> /\ ~D.dead /\ ~D.closed
Write ==
  LET k == Head(D.wq)
      f == Frame(k) IN
  Emit([e |-> "wire", f |-> f, t |-> now],
       [D EXCEPT !.wq = Tail(@), !.call[k].rid = RidOf(f), !.sub = IF f.cmd = "SUBSCRIBE" THEN [@ EXCEPT ![k].st = "reg"] ELSE @])

\* the connection is over: channels get x and are closed, nobody waits any longer
Over(d, x) ==
  [d EXCEPT !.dead = TRUE, !.rq = <<>>, !.wq = <<>>,
            !.sub = [n \in DOMAIN @ |-> IF @[n].st # "off" /\ d.call[n].ph \in {"fin", "done"} /\ d.call[n].res = "ok"
                                        THEN [@[n] EXCEPT !.st = "off", !.shut = TRUE, !.ch = @ \o x \o <<<<"close", 0>>>>] ELSE @[n]],
            !.call = [k \in DOMAIN @ |-> IF @[k].ph = "wait" THEN [@[k] EXCEPT !.ph = "fin", !.res = IF @ # "ok" THEN @
                                                                                                                       \* the server has told why
                                                                                                                       ELSE IF x # <<>> /\ x[1][1] = "srv" /\ d.call[k].rid # "" /\ d.call[k].op # "unsub" THEN "other"
                                                                                                                       ELSE "closed"] ELSE @[k]]]

CanRead == ~D.dead /\ (D.rq # <<>> \/ D.closed)
Take ==
  IF D.closed \/ Head(D.rq) = 0 THEN Unseen(Over(D, <<<<"err", 0>>>>))
  ELSE LET i == Head(D.rq)
           f == hist[i].f
           d == [D EXCEPT !.rq = Tail(@)] IN
  CASE f.cmd = "ERROR" -> Unseen(Over(d, <<<<"srv", i>>>>))
    [] f.cmd = "MESSAGE" -> LET X == {n \in DOMAIN D.sub : D.sub[n].st = "reg" /\ D.call[n].rid = C!Val(f, "subscription")} IN
                            Unseen(IF X = {} THEN d ELSE [d EXCEPT !.sub[CHOOSE n \in X : TRUE].ch = Append(@, <<"srv", i>>)])
    [] f.cmd = "RECEIPT" ->
         LET K == {k \in DOMAIN D.call : D.call[k].ph = "wait" /\ D.call[k].rid = C!Val(f, "receipt-id")}
             \* its caller may have given up
             U == {k \in Calls("unsub") : D.call[k].rid = C!Val(f, "receipt-id") /\ D.sub[D.call[k].x].st = "reg"}
             e == IF U = {} THEN d
                  ELSE LET n == D.call[CHOOSE k \in U : TRUE].x IN [d EXCEPT !.sub[n].st = "off", !.sub[n].ch = Append(@, <<"close", 0>>)] IN
         IF K = {} THEN Unseen(e)
         ELSE LET k == CHOOSE k \in K : TRUE IN
              CASE D.call[k].op = "unsub" -> Unseen(Ret_(e, k, "ok"))
                [] D.call[k].op = "disc" -> Unseen(Over(Ret_([d EXCEPT !.closed = TRUE], k, "ok"), <<<<"err", 0>>>>))
                [] OTHER -> Unseen(Ret_(d, k, "ok"))

CanClose == D.dead /\ (~D.closed \/ ~\E i \in DOMAIN hist : hist[i].e = "netclose")
Close == Emit([e |-> "netclose", t |-> now], [D EXCEPT !.closed = TRUE])
IsClosed == \E i \in DOMAIN hist : hist[i].e = "netclose"

CanRet(k) == D.call[k].ph = "fin" /\ (D.call[k].op = "disc" /\ D.dead => IsClosed)
RetEv(k) ==
  LET c == D.call[k]
      why == C!Val(hist[CHOOSE i \in DOMAIN hist : /\ hist[i].e = "srv" /\ hist[i].f.cmd = "ERROR"
                                                    /\ \A j \in 1..i-1 : hist[j].e = "srv" => hist[j].f.cmd # "ERROR"].f, "message")
      b == [e |-> "ret", k |-> k, t |-> now, r |-> c.res, m |-> IF c.res = "other" THEN why ELSE ""] IN
  CASE c.op = "sub" /\ c.res = "ok" -> [e |-> "ret", k |-> k, t |-> now, r |-> c.res, m |-> "", id |-> "s" \o Num(k), dest |-> "/q", ack |-> D.sub[k].mode]
    [] c.op = "active" -> [e |-> "ret", k |-> k, t |-> now, r |-> c.res, m |-> "", a |-> c.rid = "yes"]
    [] OTHER -> b
Ret(k) == Emit(RetEv(k), [D EXCEPT !.call[k].ph = "done",
                                   !.tx = IF D.call[k].op \in {"commit", "commitr", "abort"} /\ D.call[k].res = "ok" THEN Put(@, D.call[k].x, TRUE) ELSE @,
                                   \* a subscription that was made while the connection ended
                                   !.sub = IF D.call[k].op = "sub" /\ D.call[k].res = "ok" /\ D.dead /\ D.sub[k].st # "off"
                                           THEN [@ EXCEPT ![k].st = "off", ![k].shut = TRUE, ![k].ch = @ \o <<<<"err", 0>>, <<"close", 0>>>>] ELSE @])

CanDeliver(n) == D.sub[n].rd /\ D.sub[n].ch # <<>>
Notice(n) == "Subscription%20s" \o Num(n) \o ":%20/q:%20channel%20unsubscribe%20receipt%20timeout"
Item(n, x) ==
  IF x[1] = "close" THEN [e |-> "recv", k |-> n, t |-> now, r |-> "closed"]
  ELSE IF x[1] = "note" THEN [e |-> "recv", k |-> n, t |-> now, r |-> "err", m |-> Notice(n), b |-> "", ct |-> "", h |-> <<>>]
  ELSE IF x[1] = "err" THEN [e |-> "recv", k |-> n, t |-> now, r |-> "err", m |-> "closed", b |-> "", ct |-> "", h |-> <<>>]
  ELSE LET f == hist[x[2]].f IN
       IF f.cmd = "ERROR" THEN [e |-> "recv", k |-> n, t |-> now, r |-> "err", m |-> C!Val(f, "message"), b |-> f.b, ct |-> "", h |-> f.h]
       ELSE [e |-> "recv", k |-> n, t |-> now, r |-> "msg", m |-> "", n |-> x[2], d |-> "/q", ct |-> "", h |-> f.h, b |-> f.b, own |-> TRUE, sa |-> D.sub[n].mode # "auto", io |-> f.b]
Deliver(n) ==
  LET x == Head(D.sub[n].ch)
      d == [D EXCEPT !.sub[n].ch = Tail(@)] IN
  Emit(Item(n, x), IF x[1] # "close" THEN d
                   ELSE [d EXCEPT !.sub[n].shut = TRUE])

\* who waits for a receipt loses patience
CanExpire(k) == D.call[k].ph = "wait" /\ now - D.call[k].at >= 30 * Sec /\ D.call[k].op # "commitr"
Expire(k) ==
  CASE D.call[k].op = "sendr" -> Unseen(Ret_(D, k, "rtimeout"))
    [] D.call[k].op = "unsub" -> Unseen([Ret_(D, k, "utimeout") EXCEPT !.sub[D.call[k].x].ch = Append(@, <<"note", 0>>)])
    [] D.call[k].op = "disc" -> Unseen(Over(Ret_([D EXCEPT !.closed = TRUE], k, "dtimeout"), <<<<"err", 0>>>>))

\* the end
Moves ==      \* what can happen by itself, in the order in which it does when the world waits
  LET K == DOMAIN D.call
      N == DOMAIN D.sub
      first(X) == IF EAGER \/ X = {} THEN X ELSE {CHOOSE x \in X : \A y \in X : x <= y}
      a == {<<"enter", k>> : k \in first({k \in K : D.call[k].ph = "new"})}
      b == IF CanWrite THEN {<<"write", 0>>} ELSE {}
      c == IF CanRead THEN {<<"take", 0>>} ELSE {}
      d == IF CanClose THEN {<<"close", 0>>} ELSE {}
      e == {<<"deliver", n>> : n \in first({n \in N : CanDeliver(n)})}
      f == {<<"ret", k>> : k \in first({k \in K : CanRet(k)})}
      g == {<<"expire", k>> : k \in first({k \in K : CanExpire(k)})}
      h == {<<"read", n>> : n \in first({n \in N : "read" \notin MENU /\ Reading(n)})} IN
  IF EAGER /\ h # {} THEN h
  ELSE IF EAGER THEN a \cup b \cup c \cup d \cup e \cup f \cup g
  ELSE CASE a # {} -> a [] b # {} -> b [] c # {} -> c [] d # {} -> d [] e # {} -> e [] f # {} -> f [] g # {} -> g [] OTHER -> h

Move(m) ==
  CASE m[1] = "enter" -> Enter(m[2])
    [] m[1] = "write" -> Write
    [] m[1] = "take" -> Take
    [] m[1] = "close" -> Close
    [] m[1] = "deliver" -> Deliver(m[2])
    [] m[1] = "ret" -> Ret(m[2])
    [] m[1] = "expire" -> Expire(m[2])
    [] m[1] = "read" -> Read(m[2])

AtRest == Moves = {}
Quiet == hist[Len(hist)].e = "quiet"

Inputs ==
  \E i \in MENU :
    CASE i \in {"msg", "rcpt", "odd", "err", "eof", "reset"} -> Server(i) /\ UNCHANGED now
      [] i = "tick" -> /\ AtRest /\ Quiet /\ (\E k \in DOMAIN D.call : D.call[k].ph = "wait")
                       /\ now' = now + 40 * Sec
                       /\ UNCHANGED <<hist, S, bad, D>> /\ script' = Append(script, <<"tick">>)
      [] i = "read" -> \E n \in DOMAIN D.sub : Reading(n) /\ Read(n) /\ script' = Append(script, <<"read", Num(n)>>) /\ UNCHANGED now
      [] OTHER -> Call(i) /\ UNCHANGED now

Next ==
  /\ bad = {}
  /\ \/ /\ \E m \in Moves : Move(m)
        /\ UNCHANGED <<now, left, script>>
     \/ /\ AtRest /\ ~Quiet /\ (EAGER => left = 0 \/ "tick" \in MENU)
        /\ Emit([e |-> "quiet", t |-> now], D)
        /\ UNCHANGED <<now, left, script>>
     \/ /\ left > 0 /\ (~EAGER => Quiet)
        /\ left' = left - 1
        /\ Inputs

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* the design does what the specification permits *)
Accepted == bad = {}

(* what the properties say about histories *)
Is(i, e) == hist[i].e = e
Wires == {i \in DOMAIN hist : Is(i, "wire")}
Rets == {i \in DOMAIN hist : Is(i, "ret")}
Recvs(n) == {i \in DOMAIN hist : Is(i, "recv") /\ hist[i].k = n}
CallAt(k) == CHOOSE i \in DOMAIN hist : Is(i, "call") /\ hist[i].k = k
Op(i) == hist[CallAt(hist[i].k)].op
WireOf(k) == {i \in Wires : LET c == hist[CallAt(k)] IN
                CASE c.op = "send" -> hist[i].f.b = c.b
                  [] c.op = "sub" -> hist[i].f.cmd = "SUBSCRIBE" /\ C!Val(hist[i].f, "id") = "s" \o Num(k)
                  [] c.op = "unsub" -> hist[i].f.cmd = "UNSUBSCRIBE" /\ C!Val(hist[i].f, "id") = "s" \o Num(c.sub) /\ i > CallAt(k)
                  [] c.op = "disc" -> hist[i].f.cmd = "DISCONNECT" /\ i > CallAt(k)
                  [] c.op \in {"ack", "nack"} -> hist[i].f.cmd = (IF c.op = "ack" THEN "ACK" ELSE "NACK") /\ C!Val(hist[i].f, "id") = C!Val([h |-> c.mh], "ack") /\ i > CallAt(k)
                  [] c.op = "begin" -> hist[i].f.cmd = "BEGIN" /\ C!Val(hist[i].f, "transaction") = c.id
                  [] c.op \in {"commit", "abort"} -> hist[i].f.cmd \in {"COMMIT", "ABORT"} /\ C!Val(hist[i].f, "transaction") = "t" \o Num(c.tx) /\ i > CallAt(k)
                  [] OTHER -> FALSE}
Answers(w) == {i \in DOMAIN hist : i > w /\ Is(i, "srv") /\ hist[i].f.cmd = "RECEIPT"
                                   /\ C!Val(hist[i].f, "receipt-id") = C!Val(hist[w].f, "receipt")}
Last(P(_)) == \A i \in {Len(hist)} : P(i)      \* it is enough to look at the newest event
AutoAck(k) == D.call[k].op = "ack" /\ D.sub[hist[D.call[k].x].k].mode = "auto"
\* C09: each acknowledgement names its message, and there are as many as calls
Acks == Last(LAMBDA i : (Is(i, "wire") /\ hist[i].f.cmd \in {"ACK", "NACK"}) =>
          LET a == C!Val(hist[i].f, "id")
              like == {j \in Wires : hist[j].f.cmd = hist[i].f.cmd /\ C!Val(hist[j].f, "id") = a}
              asked == {k \in DOMAIN D.call : /\ D.call[k].op = (IF hist[i].f.cmd = "ACK" THEN "ack" ELSE "nack")
                                             /\ D.sub[hist[D.call[k].x].k].mode # "auto"
                                             /\ C!Val(hist[D.call[k].x], "ack") = a} IN
          /\ a # "" /\ Cardinality(like) <= Cardinality(asked))
Ended(i) == \E j \in 1..i : Is(j, "netclose")

\* C02: what a subscription yields is what was sent to it, in order, from its SUBSCRIBE on
SentTo(n) == SelectSeq([i \in DOMAIN hist |-> i],
               LAMBDA i : Is(i, "srv") /\ hist[i].f.cmd = "MESSAGE" /\ C!Val(hist[i].f, "subscription") = "s" \o Num(n))
Yields(n) == SelectSeq([i \in DOMAIN hist |-> i], LAMBDA i : i \in Recvs(n) /\ hist[i].r = "msg")
InOrder == \A n \in DOMAIN D.sub :
             LET y == Yields(n)
                 s == SentTo(n) IN
             Len(y) <= Len(s) /\ \A j \in DOMAIN y : hist[y[j]].b = hist[s[j]].f.b
\* ... all of them, before the channel is closed in good order
Complete == Last(LAMBDA i : Is(i, "recv") /\ hist[i].r = "closed" =>
              LET n == hist[i].k
                  u == {w \in Wires : hist[w].f.cmd = "UNSUBSCRIBE" /\ C!Val(hist[w].f, "id") = "s" \o Num(n)}
                  a == UNION {Answers(w) : w \in u} IN
              (a # {} /\ ~Ended(i)) => {j \in DOMAIN hist : Is(j, "srv") /\ hist[j].f.cmd = "MESSAGE" /\ (\A x \in a : j < x)
                                         /\ C!Val(hist[j].f, "subscription") = "s" \o Num(n)} \subseteq {SentTo(n)[j] : j \in DOMAIN Yields(n)})
Undisturbed == ~IsClosed /\ \A i \in DOMAIN hist : /\ hist[i].e \notin {"seof", "sreset"}
                                                     /\ ~(Is(i, "srv") /\ hist[i].f.cmd = "ERROR")
                                                     /\ ~(Is(i, "call") /\ hist[i].op = "must")
\* ... and when everything has come to rest
Delivered == (Quiet /\ Undisturbed) =>
               \A n \in DOMAIN D.sub : (D.sub[n].rd /\ ~\E k \in DOMAIN D.call : D.call[k].op = "unsub" /\ D.call[k].x = n)
                                        => Len(Yields(n)) = Len(SentTo(n))
\* C05: nothing after the channel has been closed, one error besides the notice of a timeout
Closing == \A n \in DOMAIN D.sub :
             /\ \A i \in Recvs(n) : hist[i].r = "closed" => \A j \in Recvs(n) : j <= i
             /\ Cardinality({i \in Recvs(n) : hist[i].r = "err" /\ hist[i].m # Notice(n)}) <= 1
             \* ... and it comes, unless the program has ended the subscription
             /\ \A i \in Recvs(n) : hist[i].r = "closed" =>
                  \/ \E k \in DOMAIN D.call : D.call[k].op = "unsub" /\ D.call[k].x = n
                  \/ \E j \in Recvs(n) : j < i /\ hist[j].r = "err"
EndAt(j) == hist[j].e \in {"netclose", "sreset", "seof"} \/ (Is(j, "srv") /\ hist[j].f.cmd = "ERROR")
\* C03, C06, C07: success means that the receipt has come
Confirmed == Last(LAMBDA i : (Is(i, "ret") /\ hist[i].r = "ok" /\ Op(i) \in {"send", "commit", "disc", "unsub"}) =>
               LET k == hist[i].k
                   c == hist[CallAt(k)] IN
               \/ c.op = "send" /\ c.opts = <<>>
               \/ c.op = "commit" /\ ~c.rc
               \/ c.op \in {"disc"} /\ (\E j \in 1..i : EndAt(j) \/ (Is(j, "call") /\ j # CallAt(k) /\ hist[j].op \in {"disc", "must"}))
               \/ c.op = "unsub" /\ (\E j \in 1..i : EndAt(j) \/ (Is(j, "call") /\ hist[j].op \in {"disc", "must"}))
               \/ \E w \in WireOf(k) : Answers(w) # {})
\* C04: one frame per call, in the order of the calls
Once == \A k \in DOMAIN D.call : hist[CallAt(k)].op \notin {"unsub", "commit", "abort", "disc", "must", "active", "ack", "nack"} => Cardinality(WireOf(k)) <= 1
Plain == {k \in DOMAIN D.call : D.call[k].op \notin {"ack", "nack", "commit", "commitr", "abort"}}    \* others may repeat themselves
Order == Last(LAMBDA i : Is(i, "wire") =>
           \A j \in Plain : i \in WireOf(j) =>
             \A k \in Plain : (\E r \in Rets : hist[r].k = j /\ r < CallAt(k)) => \A w \in WireOf(k) : w >= i)
Written == (Quiet /\ Undisturbed) =>
             \A i \in Rets : (hist[i].r = "ok" /\ hist[i].k # 1 /\ Op(i) \notin {"active", "must", "disc"} /\ ~AutoAck(hist[i].k)) => WireOf(hist[i].k) # {}
\* C05, C06: nothing follows a DISCONNECT, and no call that is begun after the end is served
Silence == Last(LAMBDA i : Is(i, "wire") => \A j \in Wires : hist[j].f.cmd = "DISCONNECT" => j >= i)
Refused == Last(LAMBDA i : (Is(i, "ret") /\ hist[i].r = "ok" /\ hist[i].k # 1) => Op(i) \in {"disc", "must", "active"} \/ AutoAck(hist[i].k) \/ ~Ended(CallAt(hist[i].k)))
\* C05: when everything has come to rest after the end, nobody waits and every channel is closed
Released == (Quiet /\ (IsClosed \/ \E i \in DOMAIN hist : hist[i].e \in {"seof", "sreset"})) =>
              /\ IsClosed
              /\ \A k \in DOMAIN D.call : \E r \in Rets : hist[r].k = k
              /\ \A n \in DOMAIN D.sub : (D.sub[n].rd /\ D.call[n].res = "ok") => \E i \in Recvs(n) : hist[i].r = "closed"
\* C07: one UNSUBSCRIBE for each subscription
OneUnsub == \A w, v \in Wires : (w # v /\ hist[w].f.cmd = "UNSUBSCRIBE" /\ hist[v].f.cmd = "UNSUBSCRIBE") => C!Val(hist[w].f, "id") # C!Val(hist[v].f, "id")
\* ... and an Unsubscribe that has succeeded leaves a closed channel
Shut == Quiet => \A i \in Rets : (hist[i].k # 1 /\ Op(i) = "unsub" /\ hist[i].r = "ok" /\ D.sub[D.call[hist[i].k].x].rd)
                               => \E j \in Recvs(D.call[hist[i].k].x) : hist[j].r = "closed"
\* C08: a transaction that has been completed is left alone
TxOver == Last(LAMBDA i : (Is(i, "wire") /\ C!Has(hist[i].f, "transaction")) =>
            LET t == C!Val(hist[i].f, "transaction")
                done == {r \in Rets : /\ hist[r].k # 1 /\ Op(r) \in {"commit", "abort"} /\ hist[r].r = "ok"
                                      /\ "t" \o Num(hist[CallAt(hist[r].k)].tx) = t}
                ends == {w \in Wires : hist[w].f.cmd \in {"COMMIT", "ABORT"} /\ C!Val(hist[w].f, "transaction") = t}
                calls(r) == {k \in DOMAIN D.call : D.call[k].op \in {"commit", "commitr", "abort"} /\ CallAt(k) < r
                                                   /\ "t" \o Num(D.call[k].x) = t} IN
            \A r \in done : /\ \A k \in DOMAIN D.call : (i \in WireOf(k) /\ hist[CallAt(k)].op = "send") => CallAt(k) < r
                            /\ Cardinality(ends) <= Cardinality(calls(r)))

\* scripts
RECURSIVE Text(_)
Text(a) == IF a = <<>> THEN "" ELSE (IF Len(a[1]) = 1 THEN a[1][1] ELSE a[1][1] \o " " \o a[1][2]) \o ";" \o Text(Tail(a))
Script == (~EAGER /\ Quiet /\ (left = 0 \/ ~ENABLED Inputs)) => PrintT("SCRIPT " \o Text(script))
=============================================================================
