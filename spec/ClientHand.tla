----------------------------- MODULE ClientHand -----------------------------
(***************************************************************************)
(* What a program may ask of Connect and what a server may answer, by      *)
(* feature: all those that differ in at most ODD features from a plain     *)
(* handshake.  What the client has to write, when it has to succeed and    *)
(* with what result is said here in terms of the features (Writes, Good,   *)
(* Result).  ClientConn, which reads what is seen of the real library, has *)
(* to agree: it permits the result there should be (Permits), and none of  *)
(* those there should not be (Forbids).  All are then put to the library.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ODD

VARIABLES x,        \* options and answer
          hist, S,  \* the events, and the state ClientConn is in
          script
vars == <<x, hist, S, script>>

EvAt(i) == hist[i]
C == INSTANCE ClientConn WITH Ev <- EvAt, Tol <- 2000, Late <- 40000000, Real <- FALSE

RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))

Logins == [none |-> <<"", "">>, both |-> <<"scott", "tiger">>, user |-> <<"scott", "">>, pass |-> <<"", "tiger">>]
Rates == [default |-> <<60000, 60000>>, zero |-> <<0, 0>>, some |-> <<2000, 3000>>, out |-> <<1500, 0>>]
Vers == [default |-> <<"1.0", "1.1", "1.2">>, v12 |-> <<"1.2">>, v11 |-> <<"1.1">>, v10 |-> <<"1.0">>, low |-> <<"1.0", "1.1">>,
         down |-> <<"1.2", "1.1", "1.0">>, odd |-> <<"1.3">>, mixed |-> <<"1.1", "1.3">>]
Hdrs == [none |-> <<>>, nonce |-> <<<<"nonce", "1">>>>, host |-> <<<<"host", "other">>>>, beat |-> <<<<"heart-beat", "7,7">>>>,
         twice |-> <<<<"nonce", "1">>, <<"nonce", "2">>>>, user |-> <<<<"login", "eve">>>>, accept |-> <<<<"accept-version", "1.0">>>>]
SBeats == [absent |-> "-", zero |-> "0,0", some |-> "60000,90000", big |-> "2000000,0",
           word |-> "x", single |-> "1", three |-> "1,2,3", minus |-> "-1,2", blank |-> "1,_2", half |-> "1,", empty |-> ""]
GoodBeats == {"absent", "zero", "some", "big"}

Plain == [cmd |-> "CONNECT", host |-> "-", login |-> "none", hb |-> "zero", vers |-> "default", hdr |-> "none", cb |-> FALSE, bad |-> FALSE,
          dl |-> FALSE, bare |-> FALSE, kind |-> "CONNECTED", ver |-> "1.2", shb |-> "absent", ses |-> "-", srv |-> "-", msg |-> "-"]
Sets == [cmd |-> {"CONNECT", "STOMP"}, host |-> {"-", "h"}, login |-> DOMAIN Logins, hb |-> DOMAIN Rates, vers |-> DOMAIN Vers,
         hdr |-> DOMAIN Hdrs, cb |-> BOOLEAN, bad |-> BOOLEAN, dl |-> BOOLEAN, bare |-> BOOLEAN,
         kind |-> {"CONNECTED", "ERROR", "MESSAGE", "RECEIPT", "eof", "reset", "garbage", "silent", "late"},
         ver |-> {"-", "", "1.0", "1.1", "1.2", "1.3", "1.2,1.1", "1.20", "2.0"}, shb |-> DOMAIN SBeats,
         ses |-> {"-", "s-1", ""}, srv |-> {"-", "mem/1.0"}, msg |-> {"-", "no", ""}]
RECURSIVE Near(_, _)
Near(H, n) == IF n = 0 THEN H
              ELSE Near(H \cup UNION {UNION {{[h EXCEPT ![k] = v] : v \in Sets[k]} : k \in DOMAIN Plain} : h \in H}, n - 1)

------------------------------------------------------------------------------
(* what there should be *)
Deadline == 1000000
Limited == x.dl /\ ~x.bare     \* only a network connection has deadlines
BadOptions == x.bad \/ x.vers \in {"odd", "mixed"}
Opt(k, v) == IF v = "-" THEN <<>> ELSE <<<<k, v>>>>
Writes == {<<"host", IF x.host = "-" THEN "default" ELSE x.host>>,
           <<"heart-beat", ToString(Rates[x.hb][1]) \o "," \o ToString(Rates[x.hb][2])>>,
           <<"accept-version", Join(Vers[x.vers])>>}
          \cup (IF x.login = "none" THEN {} ELSE {<<"login", Logins[x.login][1]>>, <<"passcode", Logins[x.login][2]>>})
Asked == [cmd |-> x.cmd, b |-> "",
          h |-> SelectSeq(<<<<"host", IF x.host = "-" THEN "default" ELSE x.host>>,
                            <<"heart-beat", ToString(Rates[x.hb][1]) \o "," \o ToString(Rates[x.hb][2])>>,
                            <<"login", Logins[x.login][1]>>, <<"passcode", Logins[x.login][2]>>,
                            <<"accept-version", Join(Vers[x.vers])>>>>, LAMBDA y : y \in Writes) \o Hdrs[x.hdr]]
Answer == [cmd |-> x.kind, b |-> "",
           h |-> Opt("version", x.ver) \o Opt("heart-beat", SBeats[x.shb]) \o Opt("session", x.ses) \o Opt("server", x.srv) \o Opt("message", x.msg)]
IsFrame == x.kind \in {"CONNECTED", "ERROR", "MESSAGE", "RECEIPT"}
Good == ~BadOptions /\ x.kind = "CONNECTED" /\ x.ver \in {"-", "", "1.0", "1.1", "1.2"} /\ x.shb \in GoodBeats
Said(v) == IF v = "-" THEN "" ELSE v
End == IF x.kind = "late" THEN Deadline + 1000 ELSE IF x.kind = "silent" THEN (IF Limited THEN Deadline ELSE 5000000) ELSE 10
\* without a deadline a silent server hangs up in the end
Events ==
  IF BadOptions THEN <<>>
  ELSE <<[e |-> "wire", t |-> 0, f |-> Asked]>>
       \o (IF IsFrame THEN <<[e |-> "srv", t |-> 5, f |-> Answer]>>
           ELSE CASE x.kind = "eof" -> <<[e |-> "seof", t |-> 5]>>
                  [] x.kind = "reset" -> <<[e |-> "sreset", t |-> 5]>>
                  [] x.kind = "garbage" -> <<[e |-> "sgarb", t |-> 5]>>
                  [] OTHER -> IF Limited THEN <<>> ELSE <<[e |-> "seof", t |-> 5]>>)
Ok(v, s, m, cb) == [e |-> "ret", k |-> 1, t |-> End, r |-> "ok", m |-> "", conn |-> TRUE, ver |-> v, ses |-> s, srv |-> m, cb |-> cb]
Failed(m) == [e |-> "ret", k |-> 1, t |-> End, r |-> "other", m |-> m, conn |-> FALSE, cb |-> <<>>]
Version == IF x.ver \in {"-", ""} THEN "1.0" ELSE x.ver
Result == IF Good THEN Ok(Version, Said(x.ses), Said(x.srv), IF x.cb THEN <<Answer.h>> ELSE <<>>)
          ELSE Failed(IF x.kind = "ERROR" THEN Said(x.msg) ELSE "EOF")
\* results there should not be
Wrong == IF Good THEN {Failed(""), [Result EXCEPT !.ver = "1.3"], [Result EXCEPT !.ver = ""], [Result EXCEPT !.conn = FALSE],
                       [Result EXCEPT !.ses = "other"], [Result EXCEPT !.srv = "other"],
                       [Result EXCEPT !.cb = IF x.cb THEN <<>> ELSE <<Answer.h>>]}
         ELSE {Ok(Version, Said(x.ses), Said(x.srv), IF x.cb THEN <<Answer.h>> ELSE <<>>), [Result EXCEPT !.conn = TRUE]}
              \cup (IF x.kind = "ERROR" /\ x.msg = "no" /\ ~BadOptions /\ ~Limited THEN {Failed("yes")} ELSE {})
\* frames that do not say what was asked for
Wire(h) == [e |-> "wire", t |-> 0, f |-> [Asked EXCEPT !.h = h]]
WrongWires == IF BadOptions THEN {Wire(Asked.h)}
              ELSE {Wire(SelectSeq(Asked.h, LAMBDA y : y # w)) : w \in Writes} \cup {Wire(Append(Asked.h, <<"login", "mallory">>))}
                   \cup {[e |-> "wire", t |-> 0, f |-> [Asked EXCEPT !.cmd = IF @ = "STOMP" THEN "CONNECT" ELSE "STOMP"]]}

------------------------------------------------------------------------------
Sec == 1000000
Call == [e |-> "call", op |-> "connect", k |-> 1, t |-> 0, bad |-> BadOptions, cb |-> x.cb, cmd |-> x.cmd, disT |-> 30 * Sec,
         dl |-> IF Limited THEN Deadline ELSE 0, hbe |-> 5 * Sec, hdr |-> [i \in DOMAIN Hdrs[x.hdr] |-> <<"hdr", Hdrs[x.hdr][i][1], Hdrs[x.hdr][i][2]>>],
         host |-> IF x.host = "-" THEN "default" ELSE x.host, login |-> Logins[x.login][1], pass |-> Logins[x.login][2],
         msgT |-> 10 * Sec, mul |-> 10, rcvT |-> 30 * Sec, unsT |-> 30 * Sec, send |-> Rates[x.hb][1], recv |-> Rates[x.hb][2], vers |-> Vers[x.vers]]
B(b) == IF b THEN "y" ELSE "n"
Init == /\ x \in Near({Plain}, ODD)
        /\ hist = <<>> /\ S = C!InitState
        /\ script = <<<<"HAND", x.cmd, x.host, x.login, ToString(Rates[x.hb][1]), ToString(Rates[x.hb][2]), Join(Vers[x.vers]), x.hdr, B(x.cb), B(x.bad),
                        B(x.dl), B(x.bare), x.kind, x.ver, SBeats[x.shb], x.ses, x.srv, x.msg>>>>

Todo == <<Call>> \o Events \o <<Result>>
Step(e) == C!Step(S, e, Len(hist) + 1)
\* Check looks at hist for the answer, which it then already contains
Next == /\ Len(hist) < Len(Todo)
        /\ LET e == Todo[Len(hist) + 1] IN
           /\ hist' = Append(hist, e)
           /\ S' \in C!Step(S, e, Len(hist) + 1)
        /\ UNCHANGED <<x, script>>
Spec == Init /\ [][Next]_vars
Stay == UNCHANGED vars
OnlyInit == Init /\ [][FALSE]_vars

Permits == Len(hist) < Len(Todo) => C!Check(S, Todo[Len(hist) + 1], Len(hist) + 1) = {}
Forbids == /\ Len(hist) = Len(Todo) - 1 => \A w \in Wrong : C!Check(S, w, Len(hist) + 1) # {}
           /\ Len(hist) = 1 => \A w \in WrongWires : C!Check(S, w, 2) # {}
\* a call that has not returned although it must
Waits == (Len(hist) = Len(Todo) - 1 /\ Len(hist) > 1) => C!Check(S, [e |-> "quiet", t |-> 60 * Sec], Len(hist) + 1) # {}
=============================================================================
