----------------------------- MODULE BrokerMC -----------------------------
(***************************************************************************)
(* The design of Broker, explored by itself: every order of frames from a  *)
(* few clients, of the broker's steps, of what it writes and of failing    *)
(* connections, within the bounds of a configuration.                      *)
(*                                                                         *)
(* Two uses.  With EAGER = TRUE clients act at any time, and the           *)
(* properties below are checked in every state.  With EAGER = FALSE they   *)
(* act only when nothing else can happen; `script' then is the history of  *)
(* client actions that leads to a state, and TLC's dump of the states      *)
(* (one per state, see View) is a set of test scripts that covers every    *)
(* quiet state of the design; they are replayed into the real server.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NC, MENU, STEPS, EAGER, INBOX, DROPS, FAULTS

VARIABLES S, left, sent, script, hist
vars == <<S, left, sent, script, hist>>

(* frames: a token is a tuple of strings, the last one its number *)
Tx(t) == IF t = "" THEN <<>> ELSE <<<<"transaction", t>>>>
FrMC(t) ==
  CASE t[1] = "SEND" -> [cmd |-> "SEND", h |-> <<<<"destination", t[2]>>>> \o Tx(t[3]), b |-> t[4]]
    [] t[1] = "SUB" -> [cmd |-> "SUBSCRIBE", h |-> <<<<"id", t[2]>>, <<"destination", t[3]>>, <<"ack", t[4]>>>>, b |-> ""]
    [] t[1] = "UNSUB" -> [cmd |-> "UNSUBSCRIBE", h |-> <<<<"id", t[2]>>>>, b |-> ""]
    [] t[1] \in {"ACK", "NACK"} -> [cmd |-> t[1], h |-> <<<<"id", t[2]>>>> \o Tx(t[3]), b |-> ""]
    [] t[1] \in {"BEGIN", "COMMIT", "ABORT"} -> [cmd |-> t[1], h |-> <<<<"transaction", t[2]>>>>, b |-> ""]
    [] t[1] = "DISC" -> [cmd |-> "DISCONNECT", h |-> <<>>, b |-> ""]

All3(s, m, x) == x
Yes3(s, m, x) == TRUE
B == INSTANCE Broker WITH Fr <- FrMC, Pick <- All3, Cast <- Yes3, Tail_ <- Yes3

Cfg == [auth |-> "", min |-> 0, storage |-> FALSE, timed |-> FALSE]
Conns == 1..NC
Up == [B!NewConn EXCEPT !.st = "up", !.ver = "1.2"]

(* what became of each message: sent, accepted, first assigned, consumed *)
NoHist == [acc |-> <<>>, fst |-> <<>>, con |-> {}, top |-> <<>>]

Init == /\ S = [c |-> [i \in Conns |-> Up], q |-> <<>>, owed |-> <<>>]
        /\ left = STEPS
        /\ sent = 0
        /\ script = <<>>
        /\ hist = NoHist

(* a connection that is over leaves no trace *)
Over(r) == /\ r.st = "gone" /\ r.closed /\ r.ch = <<>>
           /\ \A n \in DOMAIN r.subs : r.subs[n].st = "dead"
Tidy(x) == [x EXCEPT !.owed = <<>>,
                     !.c = [c \in Conns |-> IF Over(x.c[c]) THEN [B!NewConn EXCEPT !.st = "gone", !.peer = "drop", !.closed = TRUE]
                                            ELSE x.c[c]]]

(* what the server does by itself: internal steps, and what it writes *)
Writes(s, c) ==
  LET r == s.c[c]
      mid == ToString(Len(r.dl) + 1)
  IN  {B!Deliver(s, c, n, mid) : n \in {n \in DOMAIN r.subs : B!CanDeliver(s, c, n)}}
      \cup {B!DeliverTopic(s, c, n, mid) : n \in {n \in DOMAIN r.subs : B!CanTopic(s, c, n)}}
Errors(s, c) ==
  LET r == s.c[c] IN
  (IF r.st = "err" /\ r.out # <<>> THEN {[s EXCEPT !.c[c].out = <<>>, !.c[c].st = "erred"]} ELSE {})
  \cup (IF ~r.closed /\ (B!MayEnd(r) \/ r.st = "gone") THEN {[s EXCEPT !.c[c].closed = TRUE]} ELSE {})
Own(s) == B!Hidden(s, Cfg) \cup UNION {Writes(s, c) \cup Errors(s, c) : c \in Conns}

(* the queue messages in the system, with the places they are in *)
Places(s) ==
       UNION {{<<<<"queue", d, ToString(i)>>, s.q[d][i]>> : i \in DOMAIN s.q[d]} : d \in DOMAIN s.q}
  \cup UNION {{<<<<"sub", ToString(c), ToString(n)>>, s.c[c].subs[n].m>> :
                 n \in {n \in DOMAIN s.c[c].subs : s.c[c].subs[n].m # <<>>}} : c \in Conns}
  \cup UNION {{<<<<"pend", ToString(c), ToString(i)>>, s.c[c].pend[i].m>> :
                 i \in {i \in DOMAIN s.c[c].pend : s.c[c].pend[i].op = "req"}} : c \in Conns}
Msgs(s) == {p[2] : p \in Places(s)}
AtSubs(s) == {p[2] : p \in {p \in Places(s) : p[1][1] = "sub"}}
Rng(q) == {q[i] : i \in DOMAIN q}
Topics(s) == UNION {UNION {Rng(s.c[c].subs[n].tq) : n \in DOMAIN s.c[c].subs} : c \in Conns}
App(q, X) == IF X = {} THEN q ELSE Append(q, CHOOSE x \in X : TRUE)

Remember(s, t) ==
  hist' = [acc |-> App(hist.acc, Msgs(t) \ Rng(hist.acc)),
           fst |-> App(hist.fst, AtSubs(t) \ Rng(hist.fst)),
           con |-> hist.con \cup (Msgs(s) \ Msgs(t)),
           top |-> App(hist.top, Topics(t) \ Rng(hist.top))]

Server == /\ \E x \in Own(S) : S' = Tidy(x) /\ Remember(S, x)
          /\ UNCHANGED <<left, sent, script>>

(* the clients *)
Token(c, t) ==
  IF t[1] \in {"ACK", "NACK"} THEN {<<t[1], ToString(k), t[2], "">> : k \in 1..Len(S.c[c].dl)}
  ELSE IF t[1] = "SEND" THEN {<<"SEND", t[2], t[3], "m" \o ToString(sent + 1)>>}
  ELSE {Append(t, "")}
May == left > 0 /\ (EAGER \/ Own(S) = {})
Client == /\ May
          /\ \E c \in (IF script = <<>> THEN {1} ELSE Conns) :      \* connections are alike
               /\ S.c[c].st = "up" /\ S.c[c].peer = "ok" /\ Len(S.c[c].inb) < INBOX
               /\ \A i \in DOMAIN S.c[c].inb : FrMC(S.c[c].inb[i]).cmd # "DISCONNECT"
               /\ \E t \in MENU : \E tok \in Token(c, t) :
                    /\ S' = [S EXCEPT !.c[c].inb = Append(@, tok)]
                    /\ FAULTS \/ S.c[c].inb # <<>> \/ B!Fault(S.c[c], FrMC(tok)) = ""
                    /\ script' = Append(script, <<ToString(c)>> \o tok)
                    /\ sent' = IF t[1] = "SEND" THEN sent + 1 ELSE sent
          /\ left' = left - 1
          /\ UNCHANGED hist
Dropped == Cardinality({c \in Conns : S.c[c].peer = "drop"})
Fail == /\ May /\ Dropped < DROPS
        /\ \E c \in Conns : /\ S.c[c].peer = "ok" /\ S.c[c].st # "gone"
                            /\ S' = [S EXCEPT !.c[c].peer = "drop"]
                            /\ script' = Append(script, <<ToString(c), "DROP">>)
        /\ left' = left - 1
        /\ UNCHANGED <<hist, sent>>

Next == Server \/ Client \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)

View == IF EAGER THEN <<S, left, <<ToString(sent)>>, hist>> ELSE <<S, 0, IF script = <<>> THEN <<>> ELSE script[Len(script)], NoHist>>

(* menus of client actions, for the configurations *)
SubQ(id, ack) == <<"SUB", id, "/queue/a", ack>>
SubB(id, ack) == <<"SUB", id, "/queue/b", ack>>
SubT(id) == <<"SUB", id, "/topic/a", "auto">>
Unsub(id) == <<"UNSUB", id>>
SendQ == <<"SEND", "/queue/a", "">>
SendB == <<"SEND", "/queue/b", "">>
SendT == <<"SEND", "/topic/a", "">>
Ack == <<"ACK", "">>
Nack == <<"NACK", "">>
MenuQueue == {SubQ("1", "client-individual"), SubQ("1", "auto"), Unsub("1"), SendQ, Ack, Nack}
MenuAck == {SubQ("1", "client"), SubQ("2", "client"), SubQ("3", "client-individual"), SendQ, Ack, Nack}
MenuTopic == {SubT("1"), SubT("2"), Unsub("1"), Unsub("2"), SendT}
MenuIds == {SubQ("1", "client"), SubB("1", "auto"), SubT("1"), SubQ("2", "auto"), Unsub("1"), SendQ, SendB, SendT, Ack}
MenuTx == {<<"BEGIN", "t">>, <<"COMMIT", "t">>, <<"ABORT", "t">>, <<"SEND", "/queue/a", "t">>, <<"SEND", "/topic/a", "t">>,
           SendQ, SubQ("1", "client"), SubT("2"), <<"ACK", "t">>, <<"NACK", "t">>, Ack}
MenuEnd == {<<"DISC">>, SubQ("1", "client"), SubQ("2", "auto"), SendQ, Unsub("1"), Nack}

------------------------------------------------------------------------------
(* properties *)

\* [S01] a message is in one place at a time, and never comes back once consumed
OnePlace == \A p, q \in Places(S) : p[2] = q[2] => p[1] = q[1]
Final == hist.con \cap Msgs(S) = {}
\* [S01] nothing waits while someone could take it, and whoever holds a message holds one
Idle == B!NoIdleBacklog(S) /\ B!ChConsistent(S) /\ B!Prefetch(S)
\* [S02] first assigned in the order of acceptance; what comes back goes first
Of(q, d) == SelectSeq(q, LAMBDA m : m[2] = d)
Dests == {m[2] : m \in Rng(hist.acc)}
Fifo == \A d \in Dests : LET a == Of(hist.acc, d)
                             f == Of(hist.fst, d) IN
                         Len(f) <= Len(a) /\ f = SubSeq(a, 1, Len(f))
BackFirst == \A d \in DOMAIN S.q : \A i, j \in DOMAIN S.q[d] :
               i < j /\ S.q[d][j] \in Rng(hist.fst) => S.q[d][i] \in Rng(hist.fst)
\* [S03] all subscriptions get topic messages in one order
Pos(m) == CHOOSE i \in DOMAIN hist.top : hist.top[i] = m
OneOrder == \A c \in Conns : \A n \in DOMAIN S.c[c].subs :
              LET tq == S.c[c].subs[n].tq IN \A i, j \in DOMAIN tq : i < j => Pos(tq[i]) < Pos(tq[j])
\* [S05] what an open transaction contains has had no effect
TxHidden == \A c \in Conns : \A t \in DOMAIN S.c[c].tx : \A i \in DOMAIN S.c[c].tx[t] :
              LET m == S.c[c].tx[t][i] IN m \notin Rng(hist.acc) /\ m \notin Rng(hist.top)
\* [S09] whenever nothing more can happen, everything has been dealt with
Settles == Own(S) = {} => B!Quiet(S)

\* [S01, S04] a message goes away only by being written to an auto subscription
\* or by an acknowledgement of the connection that holds it
Holders(m) == {<<c, n>> \in UNION {{<<c, n>> : n \in DOMAIN S.c[c].subs} : c \in Conns} : S.c[c].subs[n].m = m}
Written(m) == \E x \in Holders(m) : /\ S.c[x[1]].subs[x[2]].st = "held" /\ S.c[x[1]].subs[x[2]].ack = "auto"
                                    /\ Len(S'.c[x[1]].dl) = Len(S.c[x[1]].dl) + 1
Acked(m) == \E x \in Holders(m) : /\ S.c[x[1]].subs[x[2]].st = "unack"
                                  /\ S.c[x[1]].inb # <<>>
                                  /\ Head(S.c[x[1]].inb)[1] \in {"ACK", "COMMIT"}
                                  /\ S'.c[x[1]].inb = Tail(S.c[x[1]].inb)
OnlyConsumed == [][\A m \in Msgs(S) \ Msgs(S') : Written(m) \/ Acked(m)]_vars
\* [S02] with fairness of the server, it comes to rest
Rests == <>[](Own(S) = {})
=============================================================================
