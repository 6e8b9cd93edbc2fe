------------------------------- MODULE Broker -------------------------------
(***************************************************************************)
(* The STOMP server of go-stomp/stomp (packages server, server/client,     *)
(* server/queue, server/topic) as seen from outside: what it may write on  *)
(* which connection and when, given the frames it was sent.                *)
(*                                                                         *)
(* Grain of atomicity.  In the code a connection's goroutine takes one     *)
(* frame at a time and pushes requests onto one FIFO channel that a single *)
(* broker goroutine serves; the order of those pushes is the order in      *)
(* which the broker acts, so a push is the linearization point.  One       *)
(* frame may need several pushes (COMMIT, a cumulative ACK, a NACK, the    *)
(* end of a connection): they are kept in pend[c] and applied one by one.  *)
(* What the broker assigns to a connection waits there (ch, tq) until the  *)
(* connection's goroutine writes it.                                       *)
(*                                                                         *)
(* The state is one record S; an action is a set of successor records, so  *)
(* that the model checker's Next (BrokerMC) and the trace checker's Next   *)
(* (BrokerTrace) use the very same definitions.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Fr(_),       \* the frame a message/frame token stands for:
                       \* [cmd |-> STRING, h |-> Seq(<<name, value>>), b |-> STRING]
          Pick(_, _, _), \* Pick(S, m, X): those of the free subscriptions X that message m may
                       \* go to.  X in the design; less where a trace shows where it went.
          Tail_(_, _, _), \* Tail_(S, m, q): can m come to stand behind the messages of queue q?
          Cast(_, _, _) \* Cast(S, m, X): can topic message m go to exactly the subscriptions X?

------------------------------------------------------------------------------
(* strings and headers *)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsQueue(d) == StartsWith(d, "/queue")

Has(f, k) == \E i \in DOMAIN f.h : f.h[i][1] = k
Val(f, k) == IF Has(f, k)
             THEN f.h[CHOOSE i \in DOMAIN f.h : f.h[i][1] = k
                                                /\ \A j \in 1..(i-1) : f.h[j][1] # k][2]
             ELSE ""

RECURSIVE Split(_, _)
Split(s, acc) ==      \* split at commas
  IF s = "" THEN <<acc>>
  ELSE LET ch == SubSeq(s, 1, 1) IN
       IF ch = "," THEN <<acc>> \o Split(SubSeq(s, 2, Len(s)), "")
       ELSE Split(SubSeq(s, 2, Len(s)), acc \o ch)

Digit == [ch \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3
              [] ch = "4" -> 4 [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7
              [] ch = "8" -> 8 [] ch = "9" -> 9]
IsNum(s, most) == Len(s) >= 1 /\ Len(s) <= most
                  /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN Digit
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0
          ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + Digit[SubSeq(s, Len(s), Len(s))]

Max2(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------------------
(* the handshake *)

ConnectCmds == {"CONNECT", "STOMP"}
ClientCmds == {"SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK", "BEGIN", "COMMIT", "ABORT",
               "DISCONNECT"}
ServerCmds == {"CONNECTED", "MESSAGE", "RECEIPT", "ERROR"}

HeartBeatOK(f) ==
  Has(f, "heart-beat") =>
    LET p == Split(Val(f, "heart-beat"), "")
    IN  Len(p) = 2 /\ IsNum(p[1], 9) /\ IsNum(p[2], 9)
ClientHB(f) == IF Has(f, "heart-beat")
               THEN LET p == Split(Val(f, "heart-beat"), "") IN <<Num(p[1]), Num(p[2])>>
               ELSE <<0, 0>>

\* versions the client accepts; without the header a CONNECT stands for 1.0
Accepts(f) == IF Has(f, "accept-version")
              THEN LET p == Split(Val(f, "accept-version"), "") IN {p[i] : i \in DOMAIN p}
              ELSE {"1.0"}
Version(f) == IF "1.2" \in Accepts(f) THEN "1.2"
              ELSE IF "1.1" \in Accepts(f) THEN "1.1" ELSE ""

Authentic(cfg, f) ==
  cfg.auth = "" \/ cfg.auth = Val(f, "login") \o "|" \o Val(f, "passcode")

ConnectOK(cfg, f) ==
  /\ ~Has(f, "receipt")
  /\ Authentic(cfg, f)
  /\ Version(f) # ""
  /\ HeartBeatOK(f)

\* what CONNECTED announces: the server's period, then the period it expects
ServerHB(cfg, f) ==
  LET hb == ClientHB(f)
      lim(x) == IF x = 0 THEN 0 ELSE Max2(x, cfg.min)
  IN  <<lim(hb[2]), lim(hb[1])>>

------------------------------------------------------------------------------
(* state *)

NewConn == [ st   |-> "new",    \* new up disc err erred bad gone
             peer |-> "ok",     \* ok drop
             ver  |-> "",
             hb   |-> <<0, 0>>,
             lw   |-> 0,        \* when the server last wrote something, and when something
             li   |-> 0,        \* complete last arrived (timed traces only)
             inb  |-> <<>>,     \* frames sent to the server and not yet processed
             out  |-> <<>>,     \* RECEIPT/ERROR/CONNECTED owed
             pre  |-> FALSE,    \* the receipt of Head(inb) has been seen already
             pend |-> <<>>,     \* pushes still to be made for the frame in progress
             subs |-> <<>>,     \* every subscription ever made on the connection
             ch   |-> <<>>,     \* subscriptions holding a queue message to be written, in order
             tx   |-> <<>>,     \* open transactions: function name -> Seq(frame)
             dl   |-> <<>>,     \* delivered messages: <<message-id, subscription>>
             closed |-> FALSE ]

NewSub(id, dest, ack) ==
  [ id |-> id, dest |-> dest, ack |-> ack,
    live |-> TRUE,      \* not unsubscribed
    st   |-> "new",     \* new free held unack idle rearm topic dead
    m    |-> <<>>,      \* the message held / unacknowledged
    mid  |-> "",        \* its message-id once delivered
    tq   |-> <<>> ]     \* topic messages to be written

InitState(n) == [ c |-> [i \in 1..n |-> NewConn], q |-> <<>>, owed |-> <<>> ]

Conns(S) == DOMAIN S.c
Queue(S, d) == IF d \in DOMAIN S.q THEN S.q[d] ELSE <<>>
SetQ(S, d, s) == [S EXCEPT !.q = (d :> s) @@ @]
SetC(S, c, r) == [S EXCEPT !.c[c] = r]

Free(S, d) == {x \in UNION {{<<c, n>> : n \in DOMAIN S.c[c].subs} : c \in Conns(S)} :
                  S.c[x[1]].subs[x[2]].st = "free" /\ S.c[x[1]].subs[x[2]].dest = d}

Owe(S, op) == [S EXCEPT !.owed = Append(@, op)]

\* hand message m to the free subscription x
Hand(S, x, m) ==
  [S EXCEPT !.c[x[1]].subs[x[2]].st = "held",
            !.c[x[1]].subs[x[2]].m  = m,
            !.c[x[1]].ch = Append(@, x[2])]

------------------------------------------------------------------------------
(* broker requests: each yields the set of possible results *)

\* subscription n of c can take a message
Arm(S, c, n) ==
  LET d == S.c[c].subs[n].dest
      w == Queue(S, d)
  IN  IF w = <<>>
      THEN {[S EXCEPT !.c[c].subs[n].st = "free"]}
      ELSE {Owe(Hand(SetQ(S, d, Tail(w)), x, Head(w)), <<"deq", d, Head(w)>>) :
              x \in Pick(S, Head(w), {<<c, n>>})}

Enqueue(S, m) ==
  LET d == Val(Fr(m), "destination") IN
  IF Free(S, d) # {}
  THEN {Hand(S, x, m) : x \in Pick(S, m, Free(S, d))}
  ELSE IF ~Tail_(S, m, Queue(S, d)) THEN {}
  ELSE {Owe(SetQ(S, d, Append(Queue(S, d), m)), <<"enq", d, m>>)}

Requeue(S, m) ==
  LET d == Val(Fr(m), "destination") IN
  IF Free(S, d) # {}
  THEN {Hand(S, x, m) : x \in Pick(S, m, Free(S, d))}
  ELSE {Owe(SetQ(S, d, <<m>> \o Queue(S, d)), <<"req", d, m>>)}

Listening(S, d) == {x \in UNION {{<<c, n>> : n \in DOMAIN S.c[c].subs} : c \in Conns(S)} :
                      LET s == S.c[x[1]].subs[x[2]] IN s.live /\ s.dest = d /\ s.st = "topic"}
Broadcast(S, m) ==
  LET X == Listening(S, Val(Fr(m), "destination")) IN
  IF ~Cast(S, m, X) THEN {} ELSE
  {[S EXCEPT !.c = [c \in Conns(S) |->
      [S.c[c] EXCEPT !.subs = [n \in DOMAIN S.c[c].subs |->
         LET s == S.c[c].subs[n] IN
         IF <<c, n>> \in X THEN [s EXCEPT !.tq = Append(@, m)] ELSE s]]]]}

Publish(S, m) == IF IsQueue(Val(Fr(m), "destination")) THEN Enqueue(S, m) ELSE Broadcast(S, m)

Apply(S, c, r) ==
  CASE r.op = "arm" -> Arm(S, c, r.n)
    [] r.op = "pub" -> Publish(S, r.m)
    [] r.op = "req" -> Requeue(S, r.m)
    [] r.op = "settle" -> {S}

ApplyFirst(S, c) ==
  LET r == Head(S.c[c].pend) IN Apply([S EXCEPT !.c[c].pend = Tail(@)], c, r)

\* a frame of c was processed; push what it needs (the first push belongs to the step)
Push(S, c, rs) ==
  IF rs = <<>> THEN {S}
  ELSE ApplyFirst([S EXCEPT !.c[c].pend = rs], c)

------------------------------------------------------------------------------
(* processing one frame *)

Live(r, id) == {n \in DOMAIN r.subs : r.subs[n].live /\ r.subs[n].id = id}

AckName(r, f) ==      \* the message an ACK/NACK names
  IF r.ver = "1.2" /\ Has(f, "id") THEN Val(f, "id") ELSE Val(f, "message-id")

\* Why a frame cannot be processed in state "up" ("" if it can).
Fault(r, f) ==
  LET open(t) == t \in DOMAIN r.tx
      txOK == Has(f, "transaction") => open(Val(f, "transaction"))
  IN
  CASE f.cmd = "SEND" ->
         IF ~Has(f, "destination") THEN "destination" ELSE IF ~txOK THEN "tx" ELSE ""
    [] f.cmd = "SUBSCRIBE" ->
         IF ~Has(f, "id") THEN "id" ELSE IF ~Has(f, "destination") THEN "destination"
         ELSE IF Has(f, "ack") /\ Val(f, "ack") \notin {"auto", "client", "client-individual"} THEN "ack"
         ELSE IF Live(r, Val(f, "id")) # {} THEN "exists" ELSE ""
    [] f.cmd = "UNSUBSCRIBE" ->
         IF ~Has(f, "id") THEN "id" ELSE IF Live(r, Val(f, "id")) = {} THEN "unknown" ELSE ""
    [] f.cmd \in {"ACK", "NACK"} ->
         IF ~IsNum(AckName(r, f), 18) THEN "message-id" ELSE IF ~txOK THEN "tx" ELSE ""
    [] f.cmd = "BEGIN" ->
         IF ~Has(f, "transaction") THEN "transaction"
         ELSE IF open(Val(f, "transaction")) THEN "tx" ELSE ""
    [] f.cmd \in {"COMMIT", "ABORT"} ->
         IF ~Has(f, "transaction") THEN "transaction"
         ELSE IF ~open(Val(f, "transaction")) THEN "tx" ELSE ""
    [] f.cmd = "DISCONNECT" -> ""
    [] OTHER -> "command"

SetToSeqs(X) == {s \in [1..Cardinality(X) -> X] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}

\* An ACK of the message named v in connection record r: which unacknowledged
\* subscriptions it settles.  (If the message it names is not outstanding in
\* client mode, whether older client-mode messages go with it is left open.)
Ord(r, v) == IF \E k \in DOMAIN r.dl : r.dl[k][1] = v
             THEN CHOOSE k \in DOMAIN r.dl : r.dl[k][1] = v ELSE 0
AckSets(r, v) ==
  LET named == {n \in DOMAIN r.subs : r.subs[n].st = "unack" /\ r.subs[n].mid = v}
      older == {n \in DOMAIN r.subs : /\ r.subs[n].st = "unack" /\ r.subs[n].ack = "client"
                                      /\ Ord(r, r.subs[n].mid) < Ord(r, v)}
      cumul == \E n \in named : r.subs[n].ack = "client"
  IN  IF cumul THEN {named \cup older} ELSE {named, named \cup older}

\* effects of an ACK/NACK/SEND outside a transaction (or at its COMMIT):
\* set of <<connection record, requests>>
Effect(r, f, tok) ==
  CASE f.cmd = "SEND" -> {<<r, <<[op |-> "pub", m |-> tok]>>>>}
    [] f.cmd = "ACK" ->
         UNION {{<<[r EXCEPT !.subs = [n \in DOMAIN r.subs |->
                       IF n \in X THEN [r.subs[n] EXCEPT !.m = <<>>, !.mid = "",
                                                         !.st = IF r.subs[n].live THEN "idle" ELSE "dead"]
                       ELSE r.subs[n]]],
                   o>> :
                 o \in {[i \in DOMAIN s |-> [op |-> "arm", n |-> s[i]]] :
                          s \in SetToSeqs({n \in X : r.subs[n].live})}} :
                X \in AckSets(r, AckName(r, f))}
    [] f.cmd = "NACK" ->
         LET X == {n \in DOMAIN r.subs : r.subs[n].st = "unack" /\ r.subs[n].mid = AckName(r, f)} IN
         IF X = {} THEN {<<r, <<>>>>}
         ELSE LET n == CHOOSE n \in X : TRUE IN
              {<<[r EXCEPT !.subs[n].m = <<>>, !.subs[n].mid = "",
                           !.subs[n].st = IF r.subs[n].live THEN "idle" ELSE "dead"],
                 <<[op |-> "req", m |-> r.subs[n].m]>>
                 \o (IF r.subs[n].live THEN <<[op |-> "arm", n |-> n]>> ELSE <<>>)>>}

RECURSIVE Effects(_, _, _)
Effects(r, toks, acc) ==     \* of a committed transaction
  IF toks = <<>> THEN {<<r, acc>>}
  ELSE UNION {Effects(e[1], Tail(toks), acc \o e[2]) : e \in Effect(r, Fr(Head(toks)), Head(toks))}

Drop(fn, x) == [y \in DOMAIN fn \ {x} |-> fn[y]]

\* results of processing frame f (token tok) on a connection that is up
ProcessUp(S, c, f, tok) ==
  LET r == S.c[c]
      t == Val(f, "transaction")
      go(e) == Push(SetC(S, c, e[1]), c, e[2])
  IN
  CASE f.cmd \in {"SEND", "ACK", "NACK"} /\ Has(f, "transaction") ->
         {SetC(S, c, [r EXCEPT !.tx[t] = Append(@, tok)])}
    [] f.cmd \in {"SEND", "ACK", "NACK"} -> UNION {go(e) : e \in Effect(r, f, tok)}
    [] f.cmd = "BEGIN" -> {SetC(S, c, [r EXCEPT !.tx = (t :> <<>>) @@ @])}
    [] f.cmd = "ABORT" -> {SetC(S, c, [r EXCEPT !.tx = Drop(@, t)])}
    [] f.cmd = "COMMIT" ->
         UNION {go(e) : e \in Effects([r EXCEPT !.tx = Drop(@, t)], r.tx[t], <<>>)}
    [] f.cmd = "SUBSCRIBE" ->
         LET ack == IF Has(f, "ack") THEN Val(f, "ack") ELSE "auto"
             s == NewSub(Val(f, "id"), Val(f, "destination"), ack)
             n == Len(r.subs) + 1
         IN  IF IsQueue(s.dest)
             THEN Push(SetC(S, c, [r EXCEPT !.subs = Append(@, s)]), c, <<[op |-> "arm", n |-> n]>>)
             ELSE {SetC(S, c, [r EXCEPT !.subs = Append(@, [s EXCEPT !.st = "topic"])])}
    [] f.cmd = "UNSUBSCRIBE" ->
         LET n == CHOOSE n \in Live(r, Val(f, "id")) : TRUE
             s == r.subs[n]
         IN  {SetC(S, c, [r EXCEPT !.subs[n] =
                [s EXCEPT !.live = FALSE, !.tq = <<>>,
                          !.st = IF s.st \in {"free", "topic", "idle", "rearm"} THEN "dead" ELSE s.st]])}
    [] f.cmd = "DISCONNECT" -> {SetC(S, c, [r EXCEPT !.st = "disc"])}

Receipt(f) == IF Has(f, "receipt") THEN <<[k |-> "rcpt", id |-> Val(f, "receipt")]>> ELSE <<>>
Error(f) == <<[k |-> "err", id |-> IF Has(f, "receipt") THEN Val(f, "receipt") ELSE "",
               has |-> Has(f, "receipt")]>>

\* a connection whose goroutine is between two frames
Ready(r) == r.pend = <<>> /\ r.out = <<>> /\ r.st \in {"new", "up"}

CanProcess(S, c) == Ready(S.c[c]) /\ S.c[c].inb # <<>>

Process(S, c, cfg) ==
  LET tok == Head(S.c[c].inb)
      f == Fr(tok)
      pre == S.c[c].pre
      S1 == [S EXCEPT !.c[c].inb = Tail(@), !.c[c].pre = FALSE]
      fail == {[S1 EXCEPT !.c[c].st = "err", !.c[c].out = Error(f), !.c[c].tx = <<>>]}
  IN
  IF f.cmd = "BAD" THEN {[S1 EXCEPT !.c[c].st = "bad"]}
  ELSE IF S.c[c].st = "new"
  THEN IF f.cmd \in ConnectCmds /\ ConnectOK(cfg, f)
       THEN {[S1 EXCEPT !.c[c].st = "up", !.c[c].ver = Version(f), !.c[c].hb = ServerHB(cfg, f),
                        !.c[c].out = <<[k |-> "cnd"]>>]}
       ELSE fail
  ELSE IF Fault(S.c[c], f) # "" THEN fail
  ELSE LET res == ProcessUp(S1, c, f, tok)
       IN  IF pre THEN res ELSE {[x EXCEPT !.c[c].out = Receipt(f)] : x \in res}

\* the receipt may be written just before the frame takes effect
CanPre(S, c) ==
  /\ Ready(S.c[c]) /\ S.c[c].inb # <<>> /\ ~S.c[c].pre /\ S.c[c].st = "up"
  /\ Fr(Head(S.c[c].inb)).cmd # "BAD"
  /\ Fault(S.c[c], Fr(Head(S.c[c].inb))) = ""
  /\ Has(Fr(Head(S.c[c].inb)), "receipt")

------------------------------------------------------------------------------
(* the end of a connection *)

MayEnd(r) == /\ r.st # "gone"
             /\ \/ r.peer = "drop"
                \/ r.st \in {"erred", "bad"}
                \/ r.st = "disc" /\ r.out = <<>>

\* pushes still outstanding for a frame in progress are made before the end
End(S, c) ==
  IF S.c[c].pend # <<>> THEN {} ELSE
  {[S EXCEPT !.c[c].st = "gone", !.c[c].inb = <<>>, !.c[c].out = <<>>, !.c[c].tx = <<>>,
             !.c[c].pre = FALSE,
             !.c[c].subs = [n \in DOMAIN S.c[c].subs |->
                LET s == S.c[c].subs[n] IN
                IF s.st \in {"topic", "idle", "rearm", "new"} THEN [s EXCEPT !.st = "dead", !.live = FALSE, !.tq = <<>>]
                ELSE [s EXCEPT !.live = FALSE]]]}

\* taking the subscriptions of an ended connection from the broker, one by one ...
Withdraw(S, c) ==
  {[S EXCEPT !.c[c].subs[n].st = "dead"] :
      n \in {n \in DOMAIN S.c[c].subs : S.c[c].subs[n].st = "free"}}

Without(s, n) == SelectSeq(s, LAMBDA x : x # n)

\* ... and giving back what they hold
GiveBack(S, c, n) ==
  Requeue([S EXCEPT !.c[c].subs[n].st = "dead", !.c[c].subs[n].m = <<>>, !.c[c].subs[n].mid = "",
                    !.c[c].ch = Without(@, n)],
          S.c[c].subs[n].m)

Returns(S, c) ==
  LET r == S.c[c] IN
  IF r.st = "gone"
  THEN IF \E n \in DOMAIN r.subs : r.subs[n].st = "free" THEN Withdraw(S, c)
       ELSE UNION {GiveBack(S, c, n) : n \in {n \in DOMAIN r.subs : r.subs[n].st \in {"held", "unack"}}}
  ELSE IF r.pend = <<>>     \* a message for a subscription that has been unsubscribed meanwhile
  THEN UNION {GiveBack(S, c, n) : n \in {n \in DOMAIN r.subs : r.subs[n].st = "held" /\ ~r.subs[n].live}}
  ELSE {}

------------------------------------------------------------------------------
(* internal steps *)

Rearm(S, c) == UNION {Arm(S, c, n) : n \in {n \in DOMAIN S.c[c].subs : S.c[c].subs[n].st = "rearm"}}

HiddenOf(S, cfg, c) ==
       Rearm(S, c)
  \cup (IF S.c[c].peer = "drop" /\ S.c[c].out # <<>> THEN {[S EXCEPT !.c[c].out = <<>>]} ELSE {})
  \cup (IF CanProcess(S, c) THEN Process(S, c, cfg) ELSE {})
  \cup (IF S.c[c].pend # <<>> THEN ApplyFirst(S, c) ELSE {})
  \cup Returns(S, c)
  \cup (IF MayEnd(S.c[c]) THEN End(S, c) ELSE {})

Hidden(S, cfg) == UNION {HiddenOf(S, cfg, c) : c \in Conns(S)}

------------------------------------------------------------------------------
(* what the server writes *)

Writable(r) == r.pend = <<>> /\ ~r.closed /\ r.st \notin {"gone", "disc", "erred", "bad", "err", "new"}

\* a queue message held by subscription n of c can be written: nothing assigned
\* to the connection earlier for the same queue is still waiting
CanDeliver(S, c, n) ==
  LET r == S.c[c] IN
  /\ Writable(r) /\ r.subs[n].st = "held" /\ r.subs[n].live
  /\ LET i == CHOOSE i \in DOMAIN r.ch : r.ch[i] = n IN
     \A j \in 1..(i-1) : r.subs[r.ch[j]].dest # r.subs[n].dest

Deliver(S, c, n, mid) ==
  LET r == S.c[c]
      s == r.subs[n]
      r1 == [r EXCEPT !.ch = Without(@, n), !.dl = Append(@, <<mid, n>>)]
  IN  IF s.ack = "auto"      \* consumed; the subscription will ask for the next one
      THEN SetC(S, c, [r1 EXCEPT !.subs[n].st = "rearm", !.subs[n].m = <<>>])
      ELSE SetC(S, c, [r1 EXCEPT !.subs[n].st = "unack", !.subs[n].mid = mid])

CanTopic(S, c, n) == Writable(S.c[c]) /\ S.c[c].subs[n].live /\ S.c[c].subs[n].tq # <<>>

DeliverTopic(S, c, n, mid) ==
  [S EXCEPT !.c[c].subs[n].tq = Tail(@), !.c[c].dl = Append(@, <<mid, n>>)]

\* nothing more happens by itself
Quiet(S) ==
  /\ \A c \in Conns(S) :
       LET r == S.c[c] IN
       /\ r.pend = <<>>
       /\ r.st \in {"new", "up", "gone"}
       /\ r.peer = "drop" => r.st = "gone"
       /\ r.st # "gone" => r.inb = <<>> /\ r.out = <<>>
       /\ r.st = "gone" => r.closed
       /\ \A n \in DOMAIN r.subs :
            LET s == r.subs[n] IN
            /\ s.st \in {"free", "unack", "topic", "dead"}
            /\ s.tq = <<>>
            /\ r.st = "gone" => s.st = "dead"
  /\ S.owed = <<>>

------------------------------------------------------------------------------
(* invariants of the design *)

Held(S) == {x \in UNION {{<<c, n>> : n \in DOMAIN S.c[c].subs} : c \in Conns(S)} :
              S.c[x[1]].subs[x[2]].st \in {"held", "unack"}}

NoIdleBacklog(S) == \A d \in DOMAIN S.q : Free(S, d) # {} => S.q[d] = <<>>
ChConsistent(S) ==
  \A c \in Conns(S) : {S.c[c].ch[i] : i \in DOMAIN S.c[c].ch}
                      = {n \in DOMAIN S.c[c].subs : S.c[c].subs[n].st = "held"}
Prefetch(S) == \A x \in Held(S) : S.c[x[1]].subs[x[2]].m # <<>>
=============================================================================
