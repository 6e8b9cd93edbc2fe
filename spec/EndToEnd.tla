---------------------------- MODULE EndToEnd ----------------------------
(* What programs that use the client library see of a broker run by the      *)
(* server library, over an intact network, in terms of their calls and the   *)
(* messages they receive (property E01).                                      *)
(*                                                                            *)
(* The state is a function of what has been observed; Check(S, e, l) says     *)
(* whether event e is a transition, Step(S, e, l) moves the state.  Where the *)
(* system leaves a choice (calls that overlap, a client going away), the      *)
(* state keeps what is certain: "no", "maybe", "yes".                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitState ==
  [c |-> <<>>,      \* clients:  "up", "leaving", "gone"
   k |-> <<>>,      \* calls:    [ev, at, ret (0: pending), ok]
   s |-> <<>>,      \* subscriptions, see NewSub
   m |-> <<>>,      \* messages, see NewMsg
   t |-> <<>>,      \* transactions: [c, st: open/ending/done, ms, acks]
   a |-> {}]        \* <<client, subscription>> that have acknowledged since the system was quiet

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
IsQueue(d) == Len(d) >= 7 /\ SubSeq(d, 1, 7) = "/queue/"

\* sent: no (not released yet), maybe, yes   cons: consumed?   hold: by which subscription (0: none)
\* back: it may have gone back to its queue, so it is out of order
\* exc:  it may be lost together with an auto subscription whose client left
\* lo, hi: when the call that sends it was begun and had succeeded
\* sure: since when the broker has certainly accepted it (0: perhaps not yet)
\* lost: it may not get there, as its client left
\* nk: a subscription in client mode that rejected it, since then
\* acker: the call that acknowledged it, since the system was last quiet
\* must, got: subscriptions of the topic that have to get it, that have got it
NewMsg(e) == [q |-> e.q, c |-> e.c, b |-> e.b, h |-> e.h, ct |-> e.ct, tx |-> e.tx, sent |-> "no", cons |-> "no", hold |-> 0,
              back |-> FALSE, exc |-> FALSE, sure |-> 0, lost |-> FALSE, lo |-> 0, hi |-> 0, must |-> {}, got |-> {}, acker |-> 0, nk |-> 0]
NewSub(e, l) == [c |-> e.c, q |-> e.q, mode |-> e.mode, st |-> "new", lo |-> l, up |-> 0, got |-> <<>>, closed |-> FALSE]

Up(S, c) == S.c[c] = "up"
Leaving(S, c) == S.c[c] # "up"
\* the subscription is established and nobody has begun to end it
Active(S, n) == S.s[n].st = "up" /\ Up(S, S.s[n].c)
Holding(S, n) == {i \in DOMAIN S.m : S.m[i].hold = n}

\* did the broker certainly accept i before j?
Before(S, i, j) ==
  LET a == S.m[i]  b == S.m[j] IN
  IF a.tx # 0 /\ a.tx = b.tx THEN i < j
  ELSE /\ a.lo # 0 /\ b.lo # 0
       /\ \/ a.c = b.c /\ a.hi # 0 /\ a.hi < b.lo
          \/ a.sure # 0 /\ a.sure < b.lo

\* what is written to subscription n may be consumed without its having been received:
\* automatically, or by the acknowledgement of a later message that the client received
Takes(S, n) == \/ S.s[n].mode = "auto"
               \/ S.s[n].mode = "client" /\ \E p \in S.a : p[1] = S.s[n].c /\ p[2] # n

\* a message of q may be written to such a subscription whose client goes away
Risky(S, q) == \E n \in DOMAIN S.s : S.s[n].q = q /\ Takes(S, n) /\ S.s[n].st = "ending" /\ Leaving(S, S.s[n].c)

------------------------------------------------------------------------------
(* calls *)
\* the broker may accept message i from now on
Release(S, i, l) ==
  LET x == S.m[i] IN
  [S EXCEPT !.m[i].sent = "maybe", !.m[i].lo = l, !.m[i].lost = S.c[x.c] = "dropped",
            \* a subscription that is ending may take it and give it back
            !.m[i].back = \E n \in DOMAIN S.s : S.s[n].q = x.q /\ S.s[n].st = "ending",
            !.m[i].exc = Risky(S, x.q),
            !.m[i].must = IF IsQueue(x.q) THEN {}
                          ELSE {n \in DOMAIN S.s : /\ Active(S, n) /\ S.s[n].q = x.q
                                                   /\ (S.s[n].up < 0 \/ S.s[n].c = x.c)}]
RECURSIVE ReleaseAll(_, _, _)
ReleaseAll(S, ms, l) == IF ms = <<>> THEN S ELSE ReleaseAll(Release(S, Head(ms), l), Tail(ms), l)

\* subscription a.n acknowledges (or rejects) message a.m
Settle1(S, a, k) ==
  LET x == S.m[a.m]
      c == S.s[a.n].c
      \* an acknowledgement may take with it earlier messages that the client holds in client mode
      S1 == IF a.nack THEN S
            ELSE [S EXCEPT !.a = @ \cup {<<c, a.n>>}, !.m = [i \in DOMAIN S.m |->
                     IF /\ i # a.m /\ S.m[i].cons = "no"
                        /\ IF S.m[i].hold # 0 THEN S.s[S.m[i].hold].c = c /\ S.s[S.m[i].hold].mode = "client"
                           ELSE S.m[i].nk # 0 /\ S.s[S.m[i].nk].c = c
                     THEN [S.m[i] EXCEPT !.cons = "maybe"] ELSE S.m[i]]]
  IN  IF Leaving(S, c) /\ ~a.nack /\ x.hold = 0 /\ x.cons = "no" THEN [S1 EXCEPT !.m[a.m].cons = "maybe"]
      ELSE IF x.hold # a.n THEN S1
      ELSE IF a.nack THEN [S1 EXCEPT !.m[a.m].hold = 0, !.m[a.m].back = TRUE, !.m[a.m].nk = IF S.s[a.n].mode = "client" THEN a.n ELSE 0, !.m[a.m].exc = @ \/ Risky(S, x.q)]
      ELSE [S1 EXCEPT !.m[a.m].hold = 0, !.m[a.m].cons = "yes", !.m[a.m].acker = k]
Settle(S, a, k) ==
  LET S1 == Settle1(S, a, k) IN
  IF ~Leaving(S, S.s[a.n].c) THEN S1
  ELSE [S1 EXCEPT !.m = [i \in DOMAIN S1.m |->
          LET x == S1.m[i] IN
          IF x.lo # 0 /\ x.hold = 0 /\ x.cons = "no" /\ IsQueue(x.q) /\ Risky(S1, x.q) THEN [x EXCEPT !.exc = TRUE] ELSE x]]
RECURSIVE SettleAll(_, _, _)
SettleAll(S, as, k) == IF as = <<>> THEN S ELSE SettleAll(Settle(S, Head(as), k), Tail(as), k)

\* client c begins to leave; abruptly: what has not certainly arrived may be lost
Leave(S, c, abrupt) ==
  LET mine == {n \in DOMAIN S.s : S.s[n].c = c}
      open == {n \in mine : S.s[n].st # "ended"}
  IN
  [S EXCEPT !.c[c] = IF abrupt THEN "dropped" ELSE "leaving",
            !.s = [n \in DOMAIN S.s |-> IF n \in open THEN [S.s[n] EXCEPT !.st = "ending"] ELSE S.s[n]],
            !.m = [i \in DOMAIN S.m |->
               LET x == S.m[i]
                   here == \E n \in open : S.s[n].q = x.q
               IN  [x EXCEPT !.hold = IF x.hold \in mine THEN 0 ELSE @,
                             !.back = @ \/ x.hold \in mine \/ (here /\ x.lo # 0 /\ IsQueue(x.q)),
                             !.exc = \/ @
                                     \/ (\E n \in open : S.s[n].q = x.q /\ Takes(S, n)) /\ x.lo # 0 /\ x.hold = 0 /\ x.cons # "yes"
                                     \/ x.hold \in mine /\ Risky(S, x.q),
                             \* an acknowledgement that may not get through
                             !.cons = IF x.acker # 0 /\ @ = "yes"
                                       THEN IF S.k[x.acker].ev.c = c /\ (abrupt \/ S.k[x.acker].ret = 0) THEN "maybe" ELSE @
                                       ELSE @,
                             !.lost = @ \/ (x.c = c /\ x.sure = 0 /\ (abrupt \/ x.hi = 0))]]]

\* sub n begins to end, its client stays
EndSub(S, n) ==
  [S EXCEPT !.s[n].st = "ending",
            !.m = [i \in DOMAIN S.m |->
               IF S.m[i].q = S.s[n].q /\ S.m[i].lo # 0 /\ IsQueue(S.m[i].q) THEN [S.m[i] EXCEPT !.back = TRUE] ELSE S.m[i]]]

Calls(S, e, l) ==
  LET S1 == [S EXCEPT !.k = Put(@, e.k, [ev |-> e, at |-> l, ret |-> 0, ok |-> FALSE])] IN
  CASE e.op = "connect" -> [S1 EXCEPT !.c = Put(@, e.c, "new")]
    [] e.op = "send" -> LET S2 == [S1 EXCEPT !.m = Append(@, NewMsg(e))] IN
                        IF e.tx = 0 THEN Release(S2, Len(S2.m), l)
                        ELSE [S2 EXCEPT !.t[e.tx].ms = Append(@, Len(S2.m))]
    [] e.op = "sub" -> [S1 EXCEPT !.s = Append(@, [NewSub(e, l) EXCEPT !.st = IF Leaving(S, e.c) THEN "ending" ELSE @])]
    [] e.op = "unsub" -> EndSub(S1, e.n)
    [] e.op = "begin" -> [S1 EXCEPT !.t = Append(@, [c |-> e.c, st |-> "open", ms |-> <<>>, acks |-> <<>>])]
    [] e.op = "commit" -> SettleAll(ReleaseAll([S1 EXCEPT !.t[e.tx].st = "ending"], S.t[e.tx].ms, l), S.t[e.tx].acks, e.k)
    [] e.op = "abort" -> [S1 EXCEPT !.t[e.tx].st = "done"]
    [] e.op = "ack" /\ e.tx = 0 -> Settle(S1, e, e.k)
    [] e.op = "ack" -> [S1 EXCEPT !.t[e.tx].acks = Append(@, e)]
    [] e.op = "disc" -> Leave(S1, e.c, FALSE)
    [] e.op = "must" -> Leave(S1, e.c, TRUE)

\* the messages of a call have been handed over
Handed(S, ms, l, rc, ok) ==
  [S EXCEPT !.m = [i \in DOMAIN S.m |->
      IF i \notin ms THEN S.m[i]
      ELSE IF ~ok THEN [S.m[i] EXCEPT !.lost = TRUE]
      ELSE [S.m[i] EXCEPT !.sent = "yes", !.hi = l, !.sure = IF rc THEN l ELSE 0]]]

Rets(S, e, l) ==
  LET q == S.k[e.k].ev
      ok == e.r = "ok"
      S1 == [S EXCEPT !.k[e.k].ret = l, !.k[e.k].ok = ok]
  IN
  CASE q.op = "connect" -> IF ok THEN [S1 EXCEPT !.c[q.c] = "up"] ELSE S1
    [] q.op = "send" -> IF q.tx = 0 THEN Handed(S1, {q.m}, l, q.rc, ok) ELSE S1
    [] q.op = "commit" ->
         LET S2 == Handed(S1, {S.t[q.tx].ms[i] : i \in DOMAIN S.t[q.tx].ms}, l, q.rc, ok) IN
         IF ok THEN S2
         ELSE [S2 EXCEPT !.m = [i \in DOMAIN S2.m |-> IF S2.m[i].acker = e.k /\ S2.m[i].cons = "yes"
                                                      THEN [S2.m[i] EXCEPT !.cons = "maybe"] ELSE S2.m[i]]]
    [] q.op = "sub" -> IF ~ok THEN [S1 EXCEPT !.s[q.n].st = "ended", !.s[q.n].closed = TRUE]
                       ELSE IF S.s[q.n].st = "new" THEN [S1 EXCEPT !.s[q.n].st = "up", !.s[q.n].up = l] ELSE S1
    [] q.op \in {"ack", "abort"} /\ ok -> S1
    [] q.op = "ack" -> [S1 EXCEPT !.m = [i \in DOMAIN S.m |-> IF S.m[i].acker = e.k /\ S.m[i].cons = "yes"
                                                              THEN [S.m[i] EXCEPT !.cons = "maybe"] ELSE S.m[i]]]
    [] OTHER -> S1

\* what the client and the broker owe each other
CallOK(S, q) == q.op # "connect" => q.c \in DOMAIN S.c
RetOK(S, e) ==
  LET q == S.k[e.k].ev IN
  e.r = "ok" \/ (q.op # "connect" /\ q.op # "disc" /\ q.op # "must" /\ Leaving(S, q.c)) \/ (q.op \in {"disc", "must"} /\ S.c[q.c] = "dropped")

------------------------------------------------------------------------------
(* messages received *)
RECURSIVE SubsetSeq(_, _)
SubsetSeq(a, b) ==   \* the entries of a are in b, in order
  IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) = Head(b) THEN SubsetSeq(Tail(a), Tail(b)) ELSE SubsetSeq(a, Tail(b))

InOrder(S, n, j) ==
  LET g == S.s[n].got IN
  \A x \in DOMAIN g : LET i == g[x].m IN
     i # j /\ ~g[x].back /\ ~S.m[i].back /\ ~S.m[j].back => ~Before(S, j, i)

\* two subscriptions of a topic agree on the order
Agree(S, n, j) ==
  \A o \in DOMAIN S.s : o # n /\ S.s[o].q = S.s[n].q =>
     LET g == S.s[o].got
         p == {x \in DOMAIN g : g[x].m = j}
     IN  p # {} => LET x == CHOOSE x \in p : TRUE IN
                   \A y \in DOMAIN g : y > x => ~\E z \in DOMAIN S.s[n].got : S.s[n].got[z].m = g[y].m

Content(S, e) ==
  LET x == S.m[e.m] IN
  x.b = e.b /\ x.ct = e.ct /\ x.q = e.d /\ SubsetSeq(x.h, e.h)

RecvOK(S, e, l) ==
  /\ e.m \in DOMAIN S.m /\ e.n \in DOMAIN S.s
  /\ LET x == S.m[e.m]  s == S.s[e.n] IN
     /\ x.sent # "no" /\ s.st # "ended" /\ ~s.closed /\ s.q = x.q /\ Content(S, e)
     /\ IF IsQueue(x.q)
        THEN \/ s.mode # "auto" /\ Leaving(S, s.c)      \* it went back already
             \/ x.cons # "yes" /\ InOrder(S, e.n, e.m) /\ IF x.hold = 0 THEN TRUE ELSE S.s[x.hold].st # "up"
        ELSE /\ e.n \notin x.got /\ InOrder(S, e.n, e.m) /\ Agree(S, e.n, e.m)
             \* topics do not keep messages
             /\ ~(x.sure # 0 /\ x.sure < s.lo)

Recvs(S, e, l) ==
  LET x == S.m[e.m]  s == S.s[e.n]
      S1 == [S EXCEPT !.s[e.n].got = Append(@, [m |-> e.m, back |-> x.back])]
  IN  IF ~IsQueue(x.q) THEN [S1 EXCEPT !.m[e.m].got = @ \cup {e.n}]
      ELSE IF s.mode = "auto" THEN [S1 EXCEPT !.m[e.m].cons = "yes", !.m[e.m].acker = 0]
      ELSE IF Leaving(S, s.c) THEN S1
      ELSE [S1 EXCEPT !.m[e.m].hold = e.n,
                      !.m[e.m].cons = IF s.mode = "client" /\ \E p \in S.a : p[1] = s.c /\ p[2] # e.n THEN "maybe" ELSE "no"]

------------------------------------------------------------------------------
(* nothing moves any more *)
Waiting(S, i) ==    \* the broker must have message i
  LET x == S.m[i] IN
  IsQueue(x.q) /\ x.sent = "yes" /\ ~x.lost /\ x.cons = "no" /\ x.hold = 0 /\ ~x.exc

Free(S, n) ==
  /\ Active(S, n)
  /\ S.s[n].mode = "auto" \/ Holding(S, n) = {}

QuietOK(S, e) ==
  /\ \A k \in DOMAIN S.k : S.k[k].ret # 0
  /\ \A i \in DOMAIN S.m : Waiting(S, i) => ~\E n \in DOMAIN S.s : S.s[n].q = S.m[i].q /\ Free(S, n)
  /\ \A i \in DOMAIN S.m : (S.m[i].sent = "yes" /\ ~S.m[i].lost) =>
        \A n \in S.m[i].must : Active(S, n) => n \in S.m[i].got
  /\ \A n \in DOMAIN S.s : S.s[n].st = "ending" => S.s[n].closed

Quiets(S, l) ==
  [S EXCEPT !.a = {},
     !.s = [n \in DOMAIN S.s |->
              CASE S.s[n].st = "ending" -> [S.s[n] EXCEPT !.st = "ended"]
                [] S.s[n].st = "up" -> [S.s[n] EXCEPT !.up = -1]
                [] OTHER -> S.s[n]],
     !.m = [i \in DOMAIN S.m |->
              LET x == S.m[i] IN
              [x EXCEPT !.sure = IF @ = 0 /\ x.sent = "yes" /\ ~x.lost THEN l ELSE @, !.acker = 0, !.nk = 0]]]

------------------------------------------------------------------------------
Check(S, e, l) ==
  IF CASE e.e = "call" -> CallOK(S, e)
       [] e.e = "ret" -> RetOK(S, e)
       [] e.e = "recv" -> RecvOK(S, e, l)
       [] e.e = "closed" -> S.s[e.n].st = "ending"
       [] e.e = "suberr" -> Leaving(S, S.s[e.n].c)
       [] e.e = "quiet" -> QuietOK(S, e)
       [] OTHER -> FALSE
  THEN {} ELSE {"E01"}

Step(S, e, l) ==
  CASE e.e = "call" -> {Calls(S, e, l)}
    [] e.e = "ret" -> {Rets(S, e, l)}
    [] e.e = "recv" -> {Recvs(S, e, l)}
    [] e.e = "closed" -> {[S EXCEPT !.s[e.n].closed = TRUE]}
    [] e.e = "suberr" -> {S}
    [] e.e = "quiet" -> {Quiets(S, l)}
    [] OTHER -> {}
=============================================================================
