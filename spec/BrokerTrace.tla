---------------------------- MODULE BrokerTrace ----------------------------
(* Checks traces recorded from the real server against Broker.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)


TFr(x) == Traces[x[1]].ev[x[2]].f
Budget == IF "BUDGET" \in DOMAIN IOEnv THEN atoi(IOEnv.BUDGET) ELSE 150000   \* states spent on one trace

VARIABLES tr, l, S
vars == <<tr, l, S>>

Ev == Traces[tr].ev
Cfg == Traces[tr].cfg

(* Where does a message go?  To any free subscription; but a trace shows to which *)
(* one it was written in the end.  Going to another one first is possible only if *)
(* that one could give it back, because it or its connection ended in between.    *)
Bodies == [t \in DOMAIN Traces |->       \* bodies that only one SEND of the trace has
  LET E == Traces[t].ev
      sends == {i \in DOMAIN E : E[i].e = "in" /\ E[i].f.cmd = "SEND"}
  IN  {i \in sends : \A j \in sends : j # i => E[j].f.b # E[i].f.b}]
Delivs == [t \in DOMAIN Traces |->
  LET E == Traces[t].ev IN
  [i \in Bodies[t] |-> {j \in DOMAIN E : j > i /\ E[j].e = "msg" /\ E[j].f.b = E[i].f.b}]]
ValOf(f, k) == LET X == {i \in DOMAIN f.h : f.h[i][1] = k} IN
               IF X = {} THEN "" ELSE f.h[CHOOSE i \in X : \A j \in X : i <= j][2]
Prune == "PRUNE" \in DOMAIN IOEnv /\ IOEnv.PRUNE = "1"
Finals == {"UNSUBSCRIBE", "DISCONNECT", "BAD"}
Ends(e, c) == /\ e.e \in {"drop", "wfail", "err", "close", "in"}
              /\ e.c = c
              /\ (e.e = "in") => (e.f.cmd \in Finals)
\* connection c of state s, or one of its subscriptions, may end before event k
MayReturn(s, c, k) ==
  \/ s.c[c].st \notin {"new", "up"} \/ s.c[c].peer = "drop"
  \/ \E i \in DOMAIN s.c[c].inb : TFr(s.c[c].inb[i]).cmd \in Finals
  \/ \E i \in l..(k-1) : Ends(Ev[i], c)
Knows(m) == Prune /\ ~Cfg.timed /\ m[2] \in Bodies[tr]
To(s, k, x) == Ev[k].c = x[1] /\ ValOf(Ev[k].f, "subscription") = s.c[x[1]].subs[x[2]].id
MinOf(D) == CHOOSE j \in D : \A i \in D : j <= i
TPick(s, m, X) ==
  IF ~Knows(m) THEN X ELSE
  LET D == {j \in Delivs[tr][m[2]] : j >= l} IN
  IF D = {} THEN X ELSE
  LET k == MinOf(D) IN {x \in X : To(s, k, x) \/ MayReturn(s, x[1], k)}
Quiets == [t \in DOMAIN Traces |-> {i \in DOMAIN Traces[t].ev : Traces[t].ev[i].e = "quiet"}]
NextQuiet == LET q == {i \in Quiets[tr] : i >= l} IN IF q = {} THEN Len(Ev) ELSE MinOf(q)
\* the first SEND to destination d that each connection still has to process
Waiting(s, d) ==
  {x \in {LET r == s.c[c]
               X == {i \in DOMAIN r.inb : /\ TFr(r.inb[i]).cmd = "SEND" /\ ValOf(TFr(r.inb[i]), "destination") = d
                                         /\ ValOf(TFr(r.inb[i]), "transaction") = ""}
           IN  IF X = {} \/ r.st # "up" \/ r.peer # "ok" THEN <<>> ELSE r.inb[MinOf(X)] : c \in DOMAIN s.c} :
      x # <<>> /\ Knows(x)}
Later(m) == {j \in Delivs[tr][m[2]] : j >= l}

\* a waits for subscription x already; is b written there before a?
Overtakes(s, x, a, b) ==
  \E j \in Later(b) : To(s, j, x) /\ \E k \in Later(a) : To(s, k, x) /\ j < k

TCast(s, m, X) ==
  IF ~Knows(m) THEN TRUE ELSE
  LET D == Later(m)
      W == Waiting(s, ValOf(TFr(m), "destination"))
  IN
  /\ \A j \in D : \E x \in X : To(s, j, x)
  /\ \A x \in X :
       LET tq == s.c[x[1]].subs[x[2]].tq
       IN  IF ~\E j \in D : To(s, j, x) THEN MayReturn(s, x[1], NextQuiet)
           ELSE /\ (tq # <<>> /\ Knows(tq[Len(tq)])) => ~Overtakes(s, x, tq[Len(tq)], m)
                /\ \A w \in W : ~Overtakes(s, x, m, w)

\* b behind a in the queue, and delivered before a?  Then a's receiver has a from
\* before b was handed out until it is written, and can get nothing in between.
Conflict(s, a, b) ==
  LET Da == Later(a)
      Db == Later(b)
  IN  IF Da = {} \/ Db = {} \/ MinOf(Db) > MinOf(Da) THEN FALSE ELSE
      LET ka == MinOf(Da)
          kb == MinOf(Db)
          d == ValOf(TFr(a), "destination")
          same(j) == Ev[j].e = "msg" /\ Ev[j].c = Ev[ka].c
                     /\ ValOf(Ev[j].f, "subscription") = ValOf(Ev[ka].f, "subscription")
          users == {c \in DOMAIN s.c :
                      \/ \E n \in DOMAIN s.c[c].subs : s.c[c].subs[n].dest = d
                      \/ \E i \in 1..ka : /\ Ev[i].e = "in" /\ Ev[i].c = c /\ Ev[i].f.cmd = "SUBSCRIBE"
                                         /\ ValOf(Ev[i].f, "destination") = d}
      IN  (\E j \in kb..(ka-1) : same(j)) /\ ~\E c \in users : MayReturn(s, c, ka)
TTail(s, m, q) ==
  IF ~Knows(m) THEN TRUE ELSE
  /\ q # <<>> /\ Knows(q[Len(q)]) => ~Conflict(s, q[Len(q)], m)
  /\ \A w \in Waiting(s, ValOf(TFr(m), "destination")) : ~Conflict(s, m, w)

B == INSTANCE Broker WITH Fr <- TFr, Pick <- TPick, Cast <- TCast, Tail_ <- TTail

Init == tr \in DOMAIN Traces /\ l = 1 /\ S = B!InitState(Traces[tr].nc)

------------------------------------------------------------------------------
(* does a delivered MESSAGE equal the message it stands for? *)
Reserved == {"receipt", "transaction", "message-id", "id", "ack", "subscription"}

SameApp(f, g) ==   \* f as sent, g as delivered
  /\ g.b = f.b
  /\ \A i \in DOMAIN f.h : f.h[i][1] \notin Reserved =>
        B!Has(g, f.h[i][1]) /\ B!Val(g, f.h[i][1]) = B!Val(f, f.h[i][1])
  /\ \A i \in DOMAIN g.h : g.h[i][1] \notin Reserved => B!Has(f, g.h[i][1])

Envelope(g, s, r, acked) ==
  /\ ~B!Has(g, "receipt") /\ ~B!Has(g, "transaction")
  /\ B!Has(g, "message-id")
  /\ B!Ord(r, B!Val(g, "message-id")) = 0
  /\ IF acked THEN B!Has(g, "ack") /\ B!Val(g, "ack") = B!Val(g, "message-id")
              ELSE ~B!Has(g, "ack")

Content(g, s, r, m) ==
  SameApp(TFr(m), g) /\ Envelope(g, s, r, B!IsQueue(s.dest) /\ s.ack # "auto")

------------------------------------------------------------------------------
Msg(e) ==
  LET r == S.c[e.c]
      g == e.f
      mid == B!Val(g, "message-id")
  IN  UNION {LET s == r.subs[n] IN
             (IF B!CanDeliver(S, e.c, n) /\ Content(g, s, r, s.m)
              THEN {B!Deliver(S, e.c, n, mid)} ELSE {})
        \cup (IF B!CanTopic(S, e.c, n) /\ Content(g, s, r, Head(s.tq))
              THEN {B!DeliverTopic(S, e.c, n, mid)} ELSE {}) :
             n \in B!Live(r, B!Val(g, "subscription"))}

Rcpt(e) ==
  LET r == S.c[e.c] IN
  IF r.closed THEN {} ELSE
  IF r.out # <<>> /\ Head(r.out).k = "rcpt"
  THEN IF Head(r.out).id = B!Val(e.f, "receipt-id") THEN {[S EXCEPT !.c[e.c].out = Tail(@)]} ELSE {}
  ELSE IF B!CanPre(S, e.c) /\ B!Val(TFr(Head(r.inb)), "receipt") = B!Val(e.f, "receipt-id")
  THEN {[S EXCEPT !.c[e.c].pre = TRUE]} ELSE {}

Err(e) ==
  LET r == S.c[e.c] IN
  IF r.closed THEN {} ELSE
  IF r.st = "err" /\ r.out # <<>> /\ Head(r.out).has = B!Has(e.f, "receipt-id")
     /\ (Head(r.out).has => Head(r.out).id = B!Val(e.f, "receipt-id"))
  THEN {[S EXCEPT !.c[e.c].out = <<>>, !.c[e.c].st = "erred"]}
  ELSE IF r.st = "bad" /\ ~B!Has(e.f, "receipt-id")
  THEN {[S EXCEPT !.c[e.c].st = "erred"]} ELSE {}

ConnectedHdr(r, f) ==
  /\ B!Val(f, "version") = r.ver
  /\ B!Val(f, "heart-beat") = ToString(r.hb[1]) \o "," \o ToString(r.hb[2])
     \/ (~B!Has(f, "heart-beat") /\ r.hb = <<0, 0>>)
Cnd(e) ==
  LET r == S.c[e.c] IN
  IF ~r.closed /\ r.out # <<>> /\ Head(r.out).k = "cnd" /\ ConnectedHdr(r, e.f)
  THEN {[S EXCEPT !.c[e.c].out = Tail(@)]} ELSE {}

------------------------------------------------------------------------------
(* time, where the trace has it *)
H == INSTANCE HeartBeat
Tol == 1000     \* 1 ms
Timed == Cfg.timed
HB(r) == [wp |-> r.hb[1], rp |-> r.hb[2], lw |-> r.lw, li |-> r.li]
Alive(r) == r.st = "up" /\ r.peer = "ok" /\ ~r.closed /\ (r.out = <<>> \/ Head(r.out).k # "cnd")
\* connections whose heart-beat is late, or which should have been given up
LateHB(t) == {c \in B!Conns(S) : Alive(S.c[c]) /\ (H!WriteLate(HB(S.c[c]), t, Tol) \/ H!Overdue(HB(S.c[c]), t, Tol))}
TimeOK(e) == Timed => LateHB(e.t) = {}
Expire(e) == IF ~Timed THEN {} ELSE
  {[S EXCEPT !.c[c].peer = "drop"] : c \in {c \in B!Conns(S) : Alive(S.c[c]) /\ H!Silent(HB(S.c[c]), e.t + Tol)}}
Stamp(e, X) ==
  IF ~Timed THEN X
  ELSE IF e.e \in {"msg", "rcpt", "err", "cnd", "hb"} THEN {[x EXCEPT !.c[e.c].lw = e.t] : x \in X}
  ELSE IF e.e \in {"in", "hbin"} THEN {[x EXCEPT !.c[e.c].li = e.t] : x \in X}
  ELSE X

\* a heart-beat
Hb(e) ==
  LET r == S.c[e.c] IN
  IF r.st = "up" /\ r.out = <<>> /\ r.hb[1] > 0 /\ ~r.closed THEN {S} ELSE {}

Close(e) ==
  LET r == S.c[e.c] IN
  IF ~r.closed /\ (B!MayEnd(r) \/ r.st = "gone") THEN {[S EXCEPT !.c[e.c].closed = TRUE]} ELSE {}

\* the driver ended the connection, or a write on it failed
Gone(e) == {[S EXCEPT !.c[e.c].peer = "drop"]}

In(e) == {IF S.c[e.c].st \in {"new", "up"} THEN [S EXCEPT !.c[e.c].inb = Append(@, <<tr, l>>)] ELSE S}

\* a custom storage was called, or has finished to start
Started == \E i \in 1..(l - 1) : Ev[i].e = "store" /\ Ev[i].op = "start"
Store(e) ==
  IF ~Cfg.storage THEN {} ELSE
  CASE e.op = "start" -> IF Started THEN {} ELSE {S}
    [] e.op = "deq" /\ e.nil -> IF Started THEN {S} ELSE {}
    [] OTHER -> IF /\ Started      \* first
                   /\ S.owed # <<>> /\ Head(S.owed)[1] = e.op /\ Head(S.owed)[2] = e.q
                   /\ SameApp(TFr(Head(S.owed)[3]), e.f)
                THEN {[S EXCEPT !.owed = Tail(@)]} ELSE {}

QuietNow == IF B!Quiet(S) THEN {S} ELSE {}

Norm(X) == IF Cfg.storage THEN X ELSE {[x EXCEPT !.owed = <<>>] : x \in X}

Seen(e) ==
  CASE e.e = "in" -> In(e)
    [] e.e = "msg" -> Msg(e)
    [] e.e = "rcpt" -> Rcpt(e)
    [] e.e = "err" -> Err(e)
    [] e.e = "cnd" -> Cnd(e)
    [] e.e = "hb" -> Hb(e)
    [] e.e = "hbin" -> {S}
    [] e.e = "close" -> Close(e)
    [] e.e \in {"drop", "wfail"} -> Gone(e)
    [] e.e = "store" -> Store(e)
    [] e.e = "quiet" -> QuietNow
    [] e.e = "leak" -> IF e.n = 0 THEN {S} ELSE {}      \* goroutines left over
    [] OTHER -> {}          \* crash, garbage on the wire

Observed(e) == IF TimeOK(e) THEN Stamp(e, Seen(e)) ELSE {}
HiddenAt(e) == B!Hidden(S, Cfg) \cup Expire(e)

\* Internal steps commute with an observed step that is already possible, so
\* they are only taken when it is not.  Exceptions: an ACK or NACK that names a
\* message-id in advance means something else before the delivery than after;
\* and a message may be for a subscription or for its successor of the same id.
Ambiguous(e) ==
  IF Timed /\ e.e \in {"in", "hbin"} /\ Expire(e) # {} THEN TRUE ELSE   \* in time or just too late
  /\ e.e = "msg"
  /\ LET r == S.c[e.c]
         names(t) == TFr(t).cmd \in {"ACK", "NACK"} /\ B!AckName(r, TFr(t)) = B!Val(e.f, "message-id")
         sub(i, cmd) == TFr(r.inb[i]).cmd = cmd /\ B!Val(TFr(r.inb[i]), "id") = B!Val(e.f, "subscription")
     IN  \/ \E i \in DOMAIN r.inb : names(r.inb[i])
         \/ \E x \in DOMAIN r.tx : \E i \in DOMAIN r.tx[x] : names(r.tx[x][i])
         \/ \E i, j \in DOMAIN r.inb : i < j /\ sub(i, "UNSUBSCRIBE") /\ sub(j, "SUBSCRIBE")

Next ==
  /\ l <= Len(Ev)
  /\ LET e == Ev[l]
         X == Observed(e) IN
     \/ S' \in Norm(IF X = {} \/ Ambiguous(e) THEN HiddenAt(e) ELSE {})
        /\ UNCHANGED <<tr, l>>
     \/ S' \in Norm(X) /\ l' = l + 1 /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* Which properties does a rejected step break?  Evaluated in the states in  *)
(* which no internal step can help either.                                   *)
All == {"S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "S11", "S12"}

InTx(f) == f.cmd \in {"BEGIN", "COMMIT", "ABORT"} \/ B!Has(f, "transaction")
OfFrame(f) ==
       (IF f.cmd \in {"SUBSCRIBE", "UNSUBSCRIBE"} THEN {"S08"} ELSE {})
  \cup (IF f.cmd \in {"ACK", "NACK"} THEN {"S04"} ELSE {})
  \cup (IF InTx(f) THEN {"S05"} ELSE {})
  \cup (IF f.cmd \in B!ConnectCmds THEN {"S07"} ELSE {})
  \cup (IF f.cmd \notin B!ClientCmds \cup B!ConnectCmds THEN {"S09"} ELSE {})

TxAcks == IF \E i \in 1..(l-1) : /\ Ev[i].e = "in" /\ Ev[i].f.cmd \in {"ACK", "NACK"}
                                 /\ B!Has(Ev[i].f, "transaction") THEN {"S05"} ELSE {}
SentAs(g) == {i \in 1..(l-1) : /\ Ev[i].e = "in" /\ Ev[i].f.cmd = "SEND"
                               /\ SameApp(Ev[i].f, g)}

BlameMsg(e) ==
  LET r == S.c[e.c]
      g == e.f
      live == B!Live(r, B!Val(g, "subscription"))
      d == B!Val(g, "destination")
      wrap == \E n \in live : \/ r.subs[n].st = "held" /\ SameApp(TFr(r.subs[n].m), g)
                              \/ \E i \in DOMAIN r.subs[n].tq : SameApp(TFr(r.subs[n].tq[i]), g)
  IN  (IF r.st = "new" THEN {"S07"} ELSE {})
 \cup (IF r.st # "up" \/ r.closed THEN {"S06", "S09"} ELSE {})
 \cup (IF live = {} \/ \A n \in live : r.subs[n].dest # d THEN {"S08"} ELSE {})
 \cup (IF SentAs(g) = {} THEN {"S10"} ELSE {})
 \cup (IF \E i \in SentAs(g) : B!Has(Ev[i].f, "transaction") THEN {"S05"} ELSE {})
 \cup (IF wrap /\ \A n \in live : ~\E m \in {r.subs[n].m} : m # <<>> /\ Content(g, r.subs[n], r, m)
       THEN {"S10", "S04", "S08"} ELSE {})
 \cup (IF SentAs(g) = {} THEN {}
       ELSE IF B!IsQueue(d) THEN {"S01", "S02", "S04", "S08"} \cup TxAcks ELSE {"S03", "S08"})
 \cup (IF Cfg.storage THEN {"S12"} ELSE {})

\* frames that may be the reason for something unexpected on connection c: those
\* sent since it last wrote something, and the last one before
Recent(c) ==
  LET outs == {i \in 1..(l-1) : Ev[i].e \in {"msg", "rcpt", "cnd", "err"} /\ Ev[i].c = c}
      ins == {i \in 1..(l-1) : Ev[i].e = "in" /\ Ev[i].c = c}
      top(X) == CHOOSE i \in X : \A j \in X : j <= i
  IN  {Ev[i].f : i \in {i \in ins : \A o \in outs : o < i} \cup (IF ins = {} THEN {} ELSE {top(ins)})}
      \cup (IF S.c[c].inb = <<>> THEN {} ELSE {TFr(Head(S.c[c].inb))})
OfRecent(c) == UNION {OfFrame(f) : f \in Recent(c)}

BlameRcpt(e) ==
  LET r == S.c[e.c] IN
  {"S06"} \cup (IF r.st \in {"new", "err"} /\ r.ver = "" THEN {"S07"} ELSE {})
          \cup OfRecent(e.c)
          \cup UNION {OfFrame(Ev[i].f) : i \in {i \in 1..(l-1) : Ev[i].e = "in" /\ Ev[i].c = e.c
                          /\ B!Has(Ev[i].f, "receipt") /\ B!Val(Ev[i].f, "receipt") = B!Val(e.f, "receipt-id")}}

BlameErr(e) == BlameRcpt(e) \cup {"S09"}

BlameClose(e) == LET r == S.c[e.c] IN
  {"S06", "S09", "S11"} \cup (IF r.ver = "" THEN {"S07"} ELSE {}) \cup OfRecent(e.c)

BlameQuiet ==
  UNION {
    LET r == S.c[c] IN
    \* given up for its silence, it should be over
    (IF Timed /\ r.peer # "ok" /\ ~r.closed /\ ~\E i \in 1..(l-1) : Ev[i].e = "drop" /\ Ev[i].c = c THEN {"S11"} ELSE {})
    \cup
    IF r.st = "gone"
    THEN (IF ~r.closed THEN {"S06", "S09", "C11"} ELSE {})
    ELSE (IF r.peer = "drop" THEN {"S09", "C11"} ELSE {})
    \cup (IF r.st \in {"err", "erred", "bad", "disc"}
          THEN {"S06", "S09"} \cup (IF r.ver = "" THEN {"S07"} ELSE {}) ELSE {})
    \cup (IF r.out # <<>>
          THEN IF Head(r.out).k = "cnd" THEN {"S07"}
               ELSE {"S06"} \cup (IF Head(r.out).k = "err" THEN {"S04", "S05", "S08", "S09"} ELSE {})
          ELSE {})
    \cup (IF r.inb # <<>> THEN {"S06", "S09"} \cup OfFrame(TFr(Head(r.inb))) ELSE {})
    \cup UNION {LET s == r.subs[n] IN
                  (IF s.st = "held" THEN {"S01", "S04", "S08", "S09"} \cup TxAcks
                        \cup (IF \E x \in DOMAIN TFr(s.m).h : TFr(s.m).h[x][1] = "transaction" THEN {"S05"} ELSE {})
                        \cup (IF Cfg.storage THEN {"S12"} ELSE {})
                   ELSE {})
             \cup (IF s.tq # <<>> THEN {"S03", "S08", "S09"} ELSE {}) : n \in DOMAIN r.subs}
    : c \in B!Conns(S)}
  \cup (IF S.owed # <<>> THEN {"S12"} ELSE {})

Blame(e) ==
  IF Timed /\ LateHB(e.t) # {} THEN {"S11"} ELSE
  CASE e.e = "crash" -> All
    [] e.e = "garbage" -> {"S06", "S09", "S10"}
    [] e.e = "msg" -> BlameMsg(e)
    [] e.e = "rcpt" -> BlameRcpt(e)
    [] e.e = "err" -> BlameErr(e)
    [] e.e = "cnd" -> {"S07", "S06"} \cup (IF Timed THEN {"S11"} ELSE {})
    [] e.e = "hb" -> {"S11"}
    [] e.e = "close" -> BlameClose(e)
    [] e.e = "store" -> {"S12"}
    [] e.e = "leak" -> {"C11"}
    [] e.e = "quiet" -> BlameQuiet
    [] OTHER -> All

------------------------------------------------------------------------------
(* bookkeeping: registers 4*tr = furthest event, +1 = states, +2 = done,   *)
(* +3 = properties blamed.  FRONT, if set, names for each trace the event at *)
(* which an earlier run found it stuck.                                      *)
Reg(k) == TLCGetOrDefault(k, 0)
Front == IF "FRONT" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.FRONT)[1] ELSE <<>>

Stuck == l <= Len(Ev) /\ Observed(Ev[l]) = {} /\ HiddenAt(Ev[l]) = {}
Accuse ==
  (Front # <<>> /\ l = Front[tr] /\ Stuck) =>
     TLCSet(4 * tr + 3, TLCGetOrDefault(4 * tr + 3, {}) \cup Blame(Ev[l]))

Track ==
  /\ Reg(4 * tr + 2) = 0
  /\ Reg(4 * tr + 1) < Budget
  /\ TLCSet(4 * tr + 1, Reg(4 * tr + 1) + 1)
  /\ (l > Reg(4 * tr)) => TLCSet(4 * tr, l)
  /\ (l > Len(Ev)) => TLCSet(4 * tr + 2, 1)
  /\ Accuse

Report == TLCGet("stats").diameter >= 0 =>
  \A t \in DOMAIN Traces :
    PrintT(<<"VERDICT", t, IF Reg(4 * t + 2) = 1 THEN "ok"
                           ELSE IF Reg(4 * t + 1) >= Budget THEN "budget" ELSE "rejected",
             Reg(4 * t), Reg(4 * t + 1), TLCGetOrDefault(4 * t + 3, {})>>)
=============================================================================
