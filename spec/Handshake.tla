----------------------------- MODULE Handshake -----------------------------
(***************************************************************************)
(* What a connection may begin with.  A handshake is described here by     *)
(* what it is: the command, the versions offered in their order, whether   *)
(* the credentials are right, what is said of heart-beats, whether a       *)
(* receipt is asked for.  Which of them must succeed, with what version    *)
(* and with what heart-beats, is said in those terms (Good, Best, Beats),  *)
(* and Broker, which reads the frame's strings as the server does, has to  *)
(* agree on all of them: those with at most ODD features out of the        *)
(* ordinary, followed by up to LATER other frames that may arrive before   *)
(* the answer.  The same handshakes are then put to the real server.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ODD, LATER

VARIABLES x,        \* the handshake
          S,        \* the broker
          wrote,    \* the commands of what the server has written
          left, script
vars == <<x, S, wrote, left, script>>

User == "user"
Pass == "pa:ss"
RECURSIVE Join(_)
Join(q) == IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))

(* tokens are tuples of strings *)
Opt(k, v) == IF v = "-" THEN <<>> ELSE <<<<k, v>>>>
Rest(cmd) == IF cmd \in {"CONNECT", "STOMP"} THEN <<>>
             ELSE <<<<"id", "1">>, <<"destination", "/queue/a">>, <<"transaction", "t">>, <<"message-id", "1">>>>
Login(l) == CASE l = "none" -> <<>>
              [] l = "right" -> <<<<"login", User>>, <<"passcode", Pass>>>>
              [] l = "reversed" -> <<<<"passcode", Pass>>, <<"login", User>>>>
              [] l = "wrong" -> <<<<"login", User>>, <<"passcode", "x">>>>
              [] l = "other" -> <<<<"login", "x">>, <<"passcode", Pass>>>>
              [] l = "half" -> <<<<"login", User>>>>
              [] l = "empty" -> <<<<"login", "">>, <<"passcode", "">>>>
              [] l = "twice" -> <<<<"login", "x">>, <<"passcode", Pass>>, <<"login", User>>>>
FrH(t) ==
  CASE t[1] = "HAND" -> [cmd |-> t[2], b |-> "",
                         h |-> Opt("accept-version", t[3]) \o Login(t[4]) \o Opt("heart-beat", t[5]) \o Opt("receipt", t[6])
                               \o Opt("host", t[7]) \o Rest(t[2])]
    [] t[1] = "SEND1" -> [cmd |-> "SEND", h |-> <<<<"destination", "/queue/a">>, <<"receipt", t[2]>>>>, b |-> "m"]
    [] t[1] = "SUB1" -> [cmd |-> "SUBSCRIBE", h |-> <<<<"id", "s">>, <<"destination", "/queue/a">>, <<"receipt", t[2]>>>>, b |-> ""]
    [] t[1] = "BEGIN1" -> [cmd |-> "BEGIN", h |-> <<<<"transaction", "t">>, <<"receipt", t[2]>>>>, b |-> ""]
    [] t[1] = "DISC1" -> [cmd |-> "DISCONNECT", h |-> <<<<"receipt", t[2]>>>>, b |-> ""]
    [] t[1] = "AGAIN" -> [cmd |-> "CONNECT", h |-> <<<<"accept-version", "1.2">>, <<"login", User>>, <<"passcode", Pass>>>>, b |-> ""]

All3(s, m, y) == y
Yes3(s, m, y) == TRUE
B == INSTANCE Broker WITH Fr <- FrH, Pick <- All3, Cast <- Yes3, Tail_ <- Yes3

------------------------------------------------------------------------------
(* the handshakes *)

Vs == {"1.0", "1.1", "1.2", "1.3"}
Absent == <<"-">>
Offers == {q \in [1..1 -> Vs] \cup [1..2 -> Vs] \cup [1..3 -> Vs] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
          \cup {Absent, <<"">>, <<"", "1.2">>, <<"1.1", "1.1">>, <<"12">>, <<"1.2.1">>, <<"v1.2">>, <<"1.10", "1.1">>}
Beats == [ absent |-> [s |-> "-", reply |-> <<0, 0>>],
           none   |-> [s |-> "0,0", reply |-> <<0, 0>>],
           both   |-> [s |-> "5000,70000", reply |-> <<70000, 60000>>],
           cx     |-> [s |-> "70000,0", reply |-> <<0, 70000>>],
           cy     |-> [s |-> "0,1", reply |-> <<60000, 0>>],
           limit  |-> [s |-> "60000,60000", reply |-> <<60000, 60000>>],
           word   |-> [s |-> "x", reply |-> <<>>],
           single |-> [s |-> "1", reply |-> <<>>],
           three  |-> [s |-> "1,2,3", reply |-> <<>>],
           minus  |-> [s |-> "-1,0", reply |-> <<>>],
           comma  |-> [s |-> ",", reply |-> <<>>],
           blank  |-> [s |-> "0, 0", reply |-> <<>>],
           huge   |-> [s |-> "1000000000,0", reply |-> <<>>],
           half   |-> [s |-> "1,", reply |-> <<>>] ]
Cmds == {"CONNECT", "STOMP", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "BEGIN", "COMMIT", "ABORT", "ACK", "NACK", "DISCONNECT",
         "CONNECTED", "MESSAGE", "RECEIPT", "ERROR"}
Plain == [cmd |-> "CONNECT", offer |-> <<"1.2">>, login |-> "right", hb |-> "none", receipt |-> "-", host |-> "h", auth |-> TRUE]
Sets == [cmd |-> Cmds, offer |-> Offers, login |-> {"none", "right", "reversed", "wrong", "other", "half", "empty", "twice"},
         hb |-> DOMAIN Beats, receipt |-> {"-", "c"}, host |-> {"-", "h"}, auth |-> BOOLEAN]
\* all that differ from a plain one in at most n features
RECURSIVE Near(_, _)
Near(H, n) == IF n = 0 THEN H
              ELSE Near(H \cup UNION {UNION {{[h EXCEPT ![k] = v] : v \in Sets[k]} : k \in DOMAIN Plain} : h \in H}, n - 1)

Range(q) == {q[i] : i \in DOMAIN q}
Best == IF x.offer = Absent THEN "1.0"
        ELSE IF "1.2" \in Range(x.offer) THEN "1.2"
        ELSE IF "1.1" \in Range(x.offer) THEN "1.1" ELSE "none"
Good == /\ x.cmd \in {"CONNECT", "STOMP"}
        /\ x.receipt = "-"
        /\ x.auth => x.login \in {"right", "reversed"}
        /\ Best \in {"1.1", "1.2"}
        /\ Beats[x.hb].reply # <<>>

Cfg == [auth |-> IF x.auth THEN User \o "|" \o Pass ELSE "", min |-> 60000, storage |-> FALSE, timed |-> FALSE]
First == <<"HAND", x.cmd, Join(x.offer), x.login, Beats[x.hb].s, x.receipt, x.host>>

Init == /\ x \in Near({Plain}, ODD)
        /\ S = [c |-> <<[B!NewConn EXCEPT !.inb = <<First>>]>>, q |-> <<>>, owed |-> <<>>]
        /\ wrote = <<>>
        /\ left = LATER
        /\ script = <<<<"0", "CFG", Cfg.auth>>, <<"1">> \o First>>

r == S.c[1]
Write == /\ r.out # <<>> /\ ~r.closed
         /\ wrote' = Append(wrote, Head(r.out))
         /\ S' = [S EXCEPT !.c[1].out = Tail(@), !.c[1].st = IF @ = "err" THEN "erred" ELSE @]
Close == /\ ~r.closed /\ (B!MayEnd(r) \/ r.st = "gone")
         /\ S' = [S EXCEPT !.c[1].closed = TRUE]
         /\ UNCHANGED wrote
Internal == /\ \E s \in B!Hidden(S, Cfg) : S' = s
            /\ UNCHANGED wrote
\* a receipt just before its frame takes effect
Early == /\ B!CanPre(S, 1)
         /\ wrote' = Append(wrote, B!Receipt(FrH(Head(r.inb)))[1])
         /\ S' = [S EXCEPT !.c[1].pre = TRUE]
Message == \E n \in DOMAIN r.subs :
             /\ B!CanDeliver(S, 1, n)
             /\ S' = B!Deliver(S, 1, n, ToString(Len(r.dl) + 1))
             /\ wrote' = Append(wrote, [k |-> "msg"])
Server == (Write \/ Close \/ Internal \/ Early \/ Message) /\ UNCHANGED <<x, left, script>>
Client == /\ left > 0 /\ r.st \in {"new", "up"}
          /\ \A i \in DOMAIN r.inb : r.inb[i][1] # "DISC1"
          /\ \E k \in {"SEND1", "SUB1", "BEGIN1", "DISC1", "AGAIN"} :
               LET tok == <<k, "r" \o ToString(left)>> IN
               /\ S' = [S EXCEPT !.c[1].inb = Append(@, tok)]
               /\ script' = Append(script, <<"1">> \o tok)
          /\ left' = left - 1
          /\ UNCHANGED <<x, wrote>>
Next == Server \/ Client
Spec == Init /\ [][Next]_vars /\ WF_vars(Server)

\* for the scripts: one state each
View == script

------------------------------------------------------------------------------
(* properties *)

Kinds == [i \in DOMAIN wrote |-> wrote[i].k]
\* what succeeds, with what
OnlyGood == Range(Kinds) \cap {"cnd", "rcpt", "msg"} # {} => Good
Answer == r.st \in {"up", "disc"} => r.ver = Best /\ r.hb = Beats[x.hb].reply
\* a refused handshake has no effect whatever follows it
NoEffect == ~Good => S.q = <<>> /\ r.subs = <<>> /\ r.tx = <<>>
\* one CONNECTED, before everything else; ERROR last, once
Order == \A i \in DOMAIN wrote : /\ Kinds[i] = "cnd" => i = 1
                                 /\ Kinds[i] \in {"msg", "rcpt"} => Kinds[1] = "cnd"
                                 /\ Kinds[i] = "err" => i = Len(wrote)
\* every handshake is answered; only those that succeed leave the connection open
Still == B!Hidden(S, Cfg) = {} /\ r.out = <<>> /\ (r.closed \/ ~(B!MayEnd(r) \/ r.st = "gone"))
Answered == Still => /\ wrote # <<>>
                     /\ Good <=> Kinds[1] = "cnd"
                     /\ Good \/ (Kinds = <<"err">> /\ r.closed)
                     \* it then ends only for a reason
                     /\ (r.closed /\ Kinds[1] = "cnd") =>
                          LET a == [i \in 1..(Len(script) - 2) |-> script[i + 2][2]] IN
                          \E i \in DOMAIN a : a[i] \in {"DISC1", "AGAIN"} \/ \E j \in 1..(i - 1) : a[j] = a[i] /\ a[i] \in {"SUB1", "BEGIN1"}
\* the refusal carries the receipt asked for
Names == \A i \in DOMAIN wrote : (wrote[i].k = "err" /\ ~Good) => wrote[i].id = (IF x.receipt = "-" THEN "" ELSE x.receipt)
=============================================================================
