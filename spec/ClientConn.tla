----------------------------- MODULE ClientConn -----------------------------
(* The client side of a STOMP connection, seen from outside: the calls the    *)
(* program makes, the frames on the wire in both directions, and what the     *)
(* subscription channels yield.                                               *)
(*                                                                            *)
(* The state is a function of what has been observed so far.  Every event     *)
(* moves it by Step, and Check says which of the properties C01..C11 the      *)
(* event violates in the present state (none: the event is a transition of    *)
(* the specification).  What goes on inside the library (channels, mutexes,   *)
(* goroutines) does not appear; where it leaves a choice, all outcomes are    *)
(* transitions.  Times are in microseconds.                                   *)
EXTENDS StompBase

CONSTANTS Ev(_)       \* Ev(i): the i-th event of the history
CONSTANTS Tol         \* what "at once" may take
CONSTANTS Late,       \* how much later than its time a timeout may be noticed
          Real        \* the network connection was opened by the library; it is a real one, whose end is seen later

Fresh == " fresh "    \* a value the library makes up

------------------------------------------------------------------------------
InitState ==
  [ph |-> "idle",          \* idle, conning, up, failed
   k0 |-> 0,               \* the Connect call
   cw |-> FALSE,           \* CONNECT is on the wire
   resp |-> 0,             \* event: the server's first frame
   ver |-> "", sy |-> 0, lim |-> 0, wt |-> 0,
   c |-> <<>>,             \* the calls, by number
   subs |-> <<>>,          \* subscriptions, by number of the Subscribe call
   tx |-> <<>>,            \* transactions: number of the Begin call -> completed
   fresh |-> {},           \* ids made up so far
   cause |-> {},           \* what has ended the connection
   closed |-> FALSE,       \* the network connection has been closed
   disc |-> 0,             \* event: DISCONNECT on the wire
   discans |-> FALSE,      \* ... and answered
   over |-> FALSE,         \* a Disconnect or MustDisconnect has returned
   errf |-> 0,             \* event: the ERROR frame
   lossy |-> FALSE,        \* received messages may be lost
   stalled |-> FALSE, lastU |-> 0, lastW |-> 0, lastR |-> 0, lastA |-> 0,
   gap |-> 0]              \* when too long a silence has ended

O(S) == Ev(S.c[S.k0].s)             \* the options of Connect
Call(S, k) == Ev(S.c[k].s)
Op(S, k) == Call(S, k).op
Rest(f, X) == [x \in DOMAIN f \ X |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InOrder == {"err", "eof", "garb", "noid"}    \* take effect after what was received before
EndedInOrder(S) == S.cause \cap InOrder # {}

------------------------------------------------------------------------------
(* what a call must put on the wire *)
RECURSIVE Apply(_, _, _, _)
Apply(cmd, h, opts, i) ==
  IF i > Len(opts) THEN [h |-> h, bad |-> FALSE]
  ELSE LET o == opts[i] IN
    CASE o[1] = "hdr" -> Apply(cmd, HAdd(h, o[2], o[3]), opts, i + 1)
      [] o[1] = "id" -> Apply(cmd, HSet(h, "id", o[2]), opts, i + 1)
      [] o[1] = "set" -> Apply(cmd, HSet(h, o[2], o[3]), opts, i + 1)
      [] o[1] = "del" -> Apply(cmd, HDel(h, o[2]), opts, i + 1)
      [] o[1] = "receipt" -> Apply(cmd, HSet(h, "receipt", Fresh), opts, i + 1)
      [] o[1] = "nocl" -> Apply(cmd, HDel(h, "content-length"), opts, i + 1)
      [] o[1] = "nil" /\ cmd # "UNSUBSCRIBE" -> Apply(cmd, h, opts, i + 1)
      [] OTHER -> [h |-> h, bad |-> TRUE]

Or(id) == IF id = "" THEN Fresh ELSE id
TxId(S, k) == IF Call(S, k).tx \in DOMAIN S.c THEN Or(Call(S, Call(S, k).tx).id) ELSE Fresh
InTx(S, k) == Op(S, k) \in {"send", "ack", "nack", "commit", "abort"} /\ Call(S, k).tx # 0

SubMode(S, k) == IF Call(S, k).sub = 0 THEN "" ELSE Call(S, Call(S, k).sub).ack
SubId(S, k) == S.subs[Call(S, k).sub].id
IsReply(e) == \E i \in DOMAIN e.opts : e.opts[i][1] \in {"hdr", "set"} /\ e.opts[i][2] = "reply-to"

AckHdr(S, k) ==
  LET e == Call(S, k)
      m == [h |-> e.mh]
      base == IF S.ver = "1.2" THEN <<<<"id", Val(m, "ack")>>>>
              ELSE <<<<"subscription", IF e.sub = 0 THEN "" ELSE SubId(S, k)>>, <<"message-id", Val(m, "message-id")>>>>
  IN  IF e.tx = 0 THEN base ELSE HSet(base, "transaction", TxId(S, k))

\* a record [cmd, h, b, bad]; bad: the call must fail by itself
Exp(S, k) ==
  LET e == Call(S, k)
      mk(cmd, h, b, bad) == [cmd |-> cmd, h |-> h, b |-> b, bad |-> bad] IN
  CASE e.op = "send" ->
         LET h0 == <<<<"content-length", e.len>>, <<"destination", e.dest>>>>
                   \o (IF e.ct = "" THEN <<>> ELSE <<<<"content-type", e.ct>>>>)
             a == Apply("SEND", h0, e.opts, 1)
         IN  mk("SEND", IF e.tx = 0 THEN a.h ELSE HSet(a.h, "transaction", TxId(S, k)), e.b, a.bad)
    [] e.op = "sub" ->
         LET a == Apply("SUBSCRIBE", <<<<"destination", e.dest>>, <<"ack", e.ack>>>>, e.opts, 1)
         IN  mk("SUBSCRIBE", IF HasH(a.h, "id") THEN a.h ELSE HAdd(a.h, "id", Fresh), "", a.bad)
    [] e.op = "unsub" ->
         LET id == SubId(S, k)
             a == Apply("UNSUBSCRIBE", <<<<"id", id>>>>, e.opts, 1)
         IN  mk("UNSUBSCRIBE", HSet(HDel(a.h, "receipt"), "receipt", id), "", a.bad)
    [] e.op = "ack" -> mk("ACK", AckHdr(S, k), "", FALSE)
    [] e.op = "nack" -> mk("NACK", AckHdr(S, k), "", FALSE)
    [] e.op = "begin" -> mk("BEGIN", <<<<"transaction", Or(e.id)>>>>, "", FALSE)
    [] e.op \in {"commit", "abort"} ->
         mk(IF e.op = "commit" THEN "COMMIT" ELSE "ABORT",
            <<<<"transaction", TxId(S, k)>>>> \o (IF e.rc THEN <<<<"receipt", Fresh>>>> ELSE <<>>), "", FALSE)
    [] e.op = "disc" -> mk("DISCONNECT", <<<<"receipt", Fresh>>>>, "", FALSE)
    [] OTHER -> mk("", <<>>, "", FALSE)

\* values the library must have made up itself
Made(S, k) ==
  LET e == Call(S, k) IN
  CASE e.op = "begin" -> {"transaction"}
    [] e.op = "sub" -> IF HasH(Apply("SUBSCRIBE", <<>>, e.opts, 1).h, "id") THEN {} ELSE {"id"}
    [] OTHER -> {n \in HNames(Exp(S, k).h) : \E i \in DOMAIN Exp(S, k).h : Exp(S, k).h[i] = <<n, Fresh>>}

SameHdr(x, g) ==      \* x as expected, g as seen
  /\ Len(x) = Len(g)
  /\ HNames(x) = HNames(g)
  /\ \A n \in HNames(x) :
       LET a == HVals(x, n)
           b == HVals(g, n)
       IN  Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i] \/ a[i] = Fresh

\* does frame f say what call k asked for?
Says(S, k, f) ==
  LET x == Exp(S, k) IN
  /\ x.cmd = f.cmd /\ x.b = f.b
  /\ SameHdr(x.h, f.h)
  /\ \A n \in Made(S, k) : Val(f, n) # "" /\ Val(f, n) \notin S.fresh
  /\ Op(S, k) = "sub" /\ Call(S, k).id # "" => Val(f, "id") = Call(S, k).id
  /\ Op(S, k) = "sub" /\ S.subs[k].got => Val(f, "id") = S.subs[k].id

------------------------------------------------------------------------------
(* how a call may or must end *)
OptErr == {"opterr", "nilopt", "other"}

\* errors with which the call fails by itself, {} if it does not
Local(S, k) ==
  LET e == Call(S, k)
      r == S.c[k] IN
  IF r.tdone THEN {"completedtx"}
  ELSE CASE e.op \in {"send", "sub"} -> IF Exp(S, k).bad THEN OptErr ELSE {}
    [] e.op = "unsub" -> IF r.inact THEN {"completedsub"} ELSE IF Exp(S, k).bad THEN OptErr ELSE {}
    [] e.op \in {"ack", "nack"} ->
         (IF e.op = "nack" /\ S.ver = "1.0" THEN {"nonack"} ELSE {})
         \cup (IF ~e.real THEN {"notrecv"}
               ELSE IF SubMode(S, k) = "auto" THEN (IF e.op = "nack" THEN {"nackauto"} ELSE {})
               ELSE IF ~Has([h |-> e.mh], IF S.ver = "1.2" THEN "ack" ELSE "message-id") THEN {"missing"} ELSE {})
    [] OTHER -> {}

\* succeeds without sending anything
Silent(S, k) ==
  LET e == Call(S, k) IN
  \/ e.op = "ack" /\ e.real /\ SubMode(S, k) = "auto"
  \/ e.op = "sub" /\ IsReply(e)
  \/ e.op = "unsub" /\ S.subs[e.sub].reply
  \/ e.op \in {"active", "must", "connect"}

Sends(S, k) == ~Silent(S, k) /\ Local(S, k) = {}
AsksReceipt(S, k) == Op(S, k) \in {"send", "commit", "abort", "disc"} /\ HasH(Exp(S, k).h, "receipt")
Waits(S, k) == Sends(S, k) /\ (AsksReceipt(S, k) \/ Op(S, k) = "unsub")

\* the timeout of the wait, 0 if there is none
Bound(S, k) ==
  LET o == O(S)
      op == Op(S, k) IN
  CASE op = "send" /\ ~InTx(S, k) -> o.rcvT
    [] op = "disc" -> o.disT
    [] op = "unsub" -> o.unsT
    [] OTHER -> S.wt

Handed == {"ok", "rtimeout", "utimeout", "dtimeout"}    \* results after which a frame is on its way
Result(S, k) == IF S.c[k].r = 0 THEN "" ELSE Ev(S.c[k].r).r
MustWrite(S, k) == S.c[k].w = 0 /\ S.c[k].sure /\ Sends(S, k) /\ Op(S, k) # "disc"
NeverWrites(S, k) == S.c[k].late \/ ~Sends(S, k)
                     \/ (S.c[k].r # 0 /\ Result(S, k) \in {"stimeout", "completedsub", "completedtx"} \cup (OptErr \ {"other"}))

OpProps(S, k) ==
  LET op == Op(S, k) IN
  (IF InTx(S, k) THEN {"C08"} ELSE {})
  \cup CASE op = "send" -> {"C04"} \cup (IF AsksReceipt(S, k) THEN {"C03"} ELSE {})
         [] op = "sub" -> {"C04", "C02"}
         [] op = "unsub" -> {"C07", "C04"}
         [] op \in {"ack", "nack"} -> {"C09", "C04"}
         [] op \in {"begin", "commit", "abort"} -> {"C08", "C04"} \cup (IF AsksReceipt(S, k) THEN {"C03"} ELSE {})
         [] op = "disc" -> {"C06", "C03"}
         [] op = "must" -> {"C05", "C06"}
         [] op = "active" -> {"C07"}
         [] OTHER -> {"C01"}

CmdProps(f) ==
  (IF Has(f, "transaction") THEN {"C08"} ELSE {}) \cup
  CASE f.cmd \in {"ACK", "NACK"} -> {"C09", "C04"}
    [] f.cmd \in {"BEGIN", "COMMIT", "ABORT"} -> {"C08", "C04"}
    [] f.cmd = "UNSUBSCRIBE" -> {"C07", "C04"}
    [] f.cmd = "DISCONNECT" -> {"C06"}
    [] f.cmd \in {"CONNECT", "STOMP"} -> {"C01"}
    [] OTHER -> {"C04"}

EndProps(S) == {"C05"} \cup (IF "disc" \in S.cause THEN {"C06"} ELSE {})
                       \cup (IF S.cause = {} /\ S.lim > 0 THEN {"C10"} ELSE {})

------------------------------------------------------------------------------
(* subscriptions *)
Unsubs(S, n) == {k \in DOMAIN S.c : Op(S, k) = "unsub" /\ Call(S, k).sub = n}
ValidUnsubs(S, n) == {k \in Unsubs(S, n) : ~Exp(S, k).bad /\ ~S.c[k].inact}
\* the subscription a message for id goes to
Target(S, id) ==
  LET X == {n \in DOMAIN S.subs : S.subs[n].id = id /\ S.subs[n].st = "reg"}
  IN  IF X = {} THEN 0 ELSE CHOOSE n \in X : \A m \in X : S.subs[m].reg <= S.subs[n].reg

DiscOver(S, t) == \E k \in DOMAIN S.c : /\ Op(S, k) = "disc" /\ ~S.c[k].late
                                        /\ O(S).disT > 0 /\ t >= Call(S, k).t + O(S).disT
\* another subscription takes over its id
Superseded(S, n) == \E k \in DOMAIN S.subs : k # n /\ S.subs[k].id = S.subs[n].id /\ S.c[k].s > S.c[n].s /\ ~S.c[k].late
Lossy(S, n, t) == S.lossy \/ S.subs[n].lossy \/ Superseded(S, n) \/ DiscOver(S, t)
SubEnded(S, n) == S.subs[n].st = "over" \/ S.cause # {} \/ (S.subs[n].reply /\ ValidUnsubs(S, n) # {}) \/ Superseded(S, n)

RStall(S) == \E n \in DOMAIN S.subs : ~S.subs[n].rd /\ Len(S.subs[n].buf) > 15

\* there has been nothing from the server for too long, now or until a moment ago
TooLong(S, t) == S.lim > 0 /\ t - S.lastR >= S.lim
SilentFor(S, t) == TooLong(S, t) \/ (S.gap > 0 /\ (S.stalled \/ t <= Max2(S.gap, S.lastU) + Tol))
Heard(S, t) == [S EXCEPT !.lastR = t, !.gap = IF TooLong(S, t) THEN t ELSE @]

------------------------------------------------------------------------------
(* Connect *)
ConnectFrame(o) ==
  LET h == <<<<"host", o.host>>, <<"heart-beat", ToString(o.send) \o "," \o ToString(o.recv)>>>>
           \o (IF o.login # "" \/ o.pass # "" THEN <<<<"login", o.login>>, <<"passcode", o.pass>>>> ELSE <<>>)
           \o <<<<"accept-version", Join(o.vers)>>>>
           \o [i \in DOMAIN o.hdr |-> <<o.hdr[i][2], o.hdr[i][3]>>]
  IN  [cmd |-> o.cmd, h |-> h, b |-> ""]

Accepts(f) == /\ f.cmd = "CONNECTED"
              /\ Val(f, "version") \in {"", "1.0", "1.1", "1.2"}
              /\ HeartBeatOK(f)

ConnectRet(S, e) ==
  LET o == O(S)
      f == Ev(S.resp).f
      fine == ~o.bad /\ S.resp # 0 /\ Accepts(f) IN
  IF e.r = "ok"
  THEN IF /\ fine /\ e.conn
          /\ e.ver = (IF Val(f, "version") = "" THEN "1.0" ELSE Val(f, "version"))
          /\ e.ses = Val(f, "session") /\ e.srv = Val(f, "server")
          /\ e.cb = (IF o.cb THEN <<f.h>> ELSE <<>>)
       THEN {} ELSE {"C01"}
  ELSE IF /\ ~e.conn
          \* the server's reason
          /\ (~o.bad /\ S.cause = {} /\ o.dl = 0 /\ S.resp # 0 /\ f.cmd = "ERROR" /\ Val(f, "message") # "") => e.m = Val(f, "message")
          /\ \/ o.bad \/ S.cause # {}
             \/ S.resp # 0 /\ ~Accepts(f)
             \/ o.dl > 0 /\ e.t >= o.t + o.dl
       THEN {} ELSE {"C01"}

Up(S, e) ==       \* the connection begins
  LET o == O(S)
      f == Ev(S.resp).f
      hb == HeartBeat(f)
      sy == hb[2] * 1000
      rd == IF hb[1] = 0 \/ o.recv = 0 THEN 0 ELSE Max2(hb[1], o.recv) * 1000 + o.hbe
  IN  [S EXCEPT !.ph = "up", !.ver = e.ver, !.sy = sy,
                !.wt = IF sy > o.hbe THEN sy - o.hbe ELSE sy,
                !.lim = (rd \div 10) * o.mul,
                !.lastW = Ev(S.resp).t, !.lastR = Ev(S.resp).t, !.lastU = Ev(S.resp).t]

------------------------------------------------------------------------------
(* the wire *)
OrderOK(S, k) == ~\E j \in DOMAIN S.c : j # k /\ MustWrite(S, j) /\ S.c[j].r < S.c[k].s

Writers(S, f) ==
  {k \in DOMAIN S.c :
     /\ S.c[k].w = 0 /\ Op(S, k) # "connect"
     /\ ~NeverWrites(S, k)
     /\ Says(S, k, f)
     /\ OrderOK(S, k)
     /\ Op(S, k) = "unsub" => ~\E j \in Unsubs(S, Call(S, k).sub) : S.c[j].w # 0
     /\ Op(S, k) = "disc" => S.disc = 0}

Gap(S, e) == S.sy > 0 /\ S.ph = "up" /\ S.cause = {} /\ ~S.stalled
             /\ e.t - Max2(S.lastW, S.lastU) > S.sy + Tol

WireCheck(S, e) ==
  LET f == e.f IN
  IF f.cmd \in {"CONNECT", "STOMP"}
  THEN IF /\ S.ph = "conning" /\ ~S.cw /\ ~O(S).bad
          /\ LET x == ConnectFrame(O(S)) IN f.cmd = x.cmd /\ f.b = "" /\ SameHdr(x.h, f.h)
       THEN {} ELSE {"C01"}
  ELSE IF S.ph # "up" THEN {"C01", "C04"}
  ELSE (IF S.disc # 0 THEN {"C06", "C05"} \cup CmdProps(f) ELSE {})
  \cup (IF S.disc = 0 /\ Writers(S, f) = {}
        THEN CmdProps(f)
             \* a call that must not write any more
             \cup (IF \E k \in DOMAIN S.c : S.c[k].late /\ S.c[k].w = 0 /\ Exp(S, k).cmd = f.cmd THEN EndProps(S) ELSE {})
             \* a frame repeated, or written although its call failed
             \cup UNION {OpProps(S, k) : k \in {k \in DOMAIN S.c : Exp(S, k).cmd = f.cmd /\ Exp(S, k).b = f.b /\ f.b # ""}}
             \cup UNION {OpProps(S, k) : k \in {k \in DOMAIN S.c : S.c[k].w = 0 /\ MustWrite(S, k)}}
        ELSE {})
  \cup (IF Gap(S, e) THEN {"C10"} ELSE {})

Replaced(S, n, k) == S.subs[n].id = S.subs[k].id /\ S.subs[n].st = "reg" /\ n # k
                     /\ ~\E u \in Unsubs(S, n) : S.c[u].w # 0

WireStep(S, e, l) ==
  LET f == e.f IN
  IF f.cmd \in {"CONNECT", "STOMP"} THEN {[S EXCEPT !.cw = TRUE]}
  ELSE {LET T == [S EXCEPT !.lastW = e.t,
                           !.c[k].w = l,
                           !.c[k].rid = IF Waits(S, k) THEN Val(f, "receipt") ELSE "",
                           !.c[k].rc = Waits(S, k),
                           !.fresh = @ \cup {Val(f, n) : n \in Made(S, k)},
                           !.disc = IF f.cmd = "DISCONNECT" THEN l ELSE @]
        IN  IF f.cmd = "SUBSCRIBE"
            THEN [T EXCEPT !.subs = [n \in DOMAIN @ |->
                     IF n = k THEN [@[n] EXCEPT !.st = "reg", !.reg = l, !.id = Val(f, "id")]
                     ELSE IF @[n].id = Val(f, "id") /\ @[n].st = "reg" /\ ~\E u \in Unsubs(S, n) : S.c[u].w # 0
                     THEN [@[n] EXCEPT !.st = "over", !.lossy = TRUE]
                     ELSE @[n]]]
            ELSE T
        : k \in Writers(S, f)}

------------------------------------------------------------------------------
(* the server *)
Answerable(S, id) == {k \in DOMAIN S.c : S.c[k].rc /\ S.c[k].rid = id /\ ~S.c[k].ans}

Receipt(S, f) ==
  LET K == Answerable(S, Val(f, "receipt-id")) IN
  IF K = {} THEN S
  ELSE LET k == CHOOSE k \in K : \A j \in K : S.c[k].w <= S.c[j].w
           n == IF Op(S, k) = "unsub" THEN Call(S, k).sub ELSE 0
           T == [S EXCEPT !.c[k].ans = TRUE, !.discans = @ \/ Op(S, k) = "disc"]
       IN  IF n = 0 THEN T ELSE [T EXCEPT !.subs[n].st = "over"]

SrvStep(S, e, l) ==
  LET f == e.f
      T == Heard(S, e.t) IN
  IF S.ph # "up" THEN IF S.resp = 0 THEN [T EXCEPT !.resp = l] ELSE [T EXCEPT !.resp = @]
  ELSE IF EndedInOrder(S) \/ S.closed THEN T
  ELSE CASE f.cmd = "ERROR" -> [T EXCEPT !.cause = @ \cup {"err"}, !.errf = IF @ = 0 THEN l ELSE @]
         [] f.cmd = "RECEIPT" -> IF Has(f, "receipt-id") THEN Receipt(T, f) ELSE [T EXCEPT !.cause = @ \cup {"noid"}]
         [] f.cmd = "MESSAGE" /\ Has(f, "subscription") ->
              LET n == Target(S, Val(f, "subscription")) IN
              IF n = 0 THEN T ELSE [T EXCEPT !.subs[n].buf = Append(@, l)]
         [] OTHER -> T

\* what follows the answer to DISCONNECT may or may not be seen
SrvSteps(S, e, l) == {SrvStep(S, e, l)} \cup (IF S.discans THEN {Heard(S, e.t)} ELSE {})

------------------------------------------------------------------------------
(* what the program sees *)
RecvCheck(S, e) ==
  LET n == e.k
      s == S.subs[n]
      un == Unsubs(S, n) # {}
      more == IF un THEN {"C07"} ELSE {} IN
  IF n \notin DOMAIN S.subs THEN {"C02"}
  ELSE CASE e.r = "msg" ->
         IF s.fin # "" THEN {"C05", "C02"} \cup more
         ELSE IF s.buf = <<>> THEN {"C02"} \cup more
         ELSE LET f == Ev(Head(s.buf)).f IN
              (IF e.h = f.h /\ e.b = f.b /\ e.io = f.b /\ e.d = Val(f, "destination") /\ e.ct = Val(f, "content-type") /\ e.own
               THEN {} ELSE {"C02"} \cup more)
              \cup (IF e.sa = (Call(S, n).ack # "auto") THEN {} ELSE {"C09"})
    [] e.r = "merr" -> {"C05", "C07"}   \* Read reports an error as an error
    [] e.r \in {"err", "rerr"} ->
         IF \E k \in ValidUnsubs(S, n) : e.m = s.notice /\ O(S).unsT > 0 /\ e.t >= Call(S, k).t + O(S).unsT
         THEN {}
         ELSE (IF s.fin # "" THEN {"C05"} ELSE {})
         \cup (IF ~SubEnded(S, n) THEN {"C05", "C02"} \cup more ELSE {})
         \cup (IF s.buf # <<>> /\ ~Lossy(S, n, e.t) THEN {"C02", "C05"} \cup more ELSE {})
         \cup (IF S.cause = {"err"} /\ s.st = "reg" /\ e.r = "err" /\ ~(s.reply /\ ValidUnsubs(S, n) # {}) /\ ~Superseded(S, n)
                  /\ LET f == Ev(S.errf).f IN ~(e.m = Val(f, "message") /\ e.b = f.b /\ e.ct = Val(f, "content-type") /\ e.h = f.h)
               THEN {"C05"} ELSE {})
    [] e.r = "closed" ->
         (IF s.fin = "closed" THEN {"C05"} ELSE {})
         \* the end of the connection comes as an error first
         \cup (IF s.fin = "" /\ s.st = "reg" /\ ~un /\ ~Superseded(S, n) THEN {"C05"} ELSE {})
         \cup (IF ~SubEnded(S, n) /\ s.fin = "" THEN {"C05", "C02"} \cup more ELSE {})
         \cup (IF s.buf # <<>> /\ ~Lossy(S, n, e.t) THEN {"C02", "C05"} \cup more ELSE {})
    [] e.r = "comp" ->
         IF ValidUnsubs(S, n) # {} \/ SubEnded(S, n) THEN {} ELSE {"C07", "C02"}
    [] OTHER -> {"C02"}

RecvStep(S, e) ==
  LET n == e.k
      s == S.subs[n] IN
  CASE e.r = "msg" -> [S EXCEPT !.subs[n].buf = Tail(@)]
    [] e.r \in {"err", "rerr"} ->
         IF e.m = s.notice /\ ValidUnsubs(S, n) # {} THEN S ELSE [S EXCEPT !.subs[n].fin = "err"]
    [] e.r = "closed" -> [S EXCEPT !.subs[n].fin = "closed"]
    [] OTHER -> S

------------------------------------------------------------------------------
(* calls *)
CallStep(S, e, l) ==
  LET late == S.closed \/ S.disc # 0 \/ S.over
      tdone == e.op \in {"send", "ack", "nack", "commit", "abort"} /\ e.tx # 0 /\ e.tx \in DOMAIN S.tx /\ S.tx[e.tx]
      inact == e.op = "unsub" /\ (S.subs[e.sub].fin = "closed"
                   \/ \E k \in Unsubs(S, e.sub) : S.c[k].r # 0 /\ ~(Result(S, k) \in OptErr))
      r == [s |-> l, r |-> 0, w |-> 0, rid |-> "", rc |-> FALSE, ans |-> FALSE, sure |-> FALSE, late |-> late, tdone |-> tdone, inact |-> inact]
      T == [S EXCEPT !.c = Put(@, e.k, r), !.lastA = e.t]
  IN  CASE e.op = "connect" -> [T EXCEPT !.ph = "conning", !.k0 = e.k]
        [] e.op = "sub" ->
             LET h == Apply("SUBSCRIBE", <<>>, e.opts, 1).h
                 id == IF HasH(h, "reply-to") THEN h[First(h, "reply-to")][2] ELSE e.id
             IN  [T EXCEPT !.subs = Put(@, e.k, [id |-> id, reply |-> IsReply(e), st |-> "pend", reg |-> 0, buf |-> <<>>, fin |-> "",
                                                 rd |-> FALSE, got |-> FALSE, lossy |-> FALSE, notice |-> ""])]
        [] e.op = "begin" -> [T EXCEPT !.tx = Put(@, e.k, FALSE)]
        [] e.op = "unsub" -> IF S.subs[e.sub].reply THEN [T EXCEPT !.subs[e.sub].lossy = TRUE] ELSE T
        [] e.op = "disc" -> [T EXCEPT !.cause = @ \cup {"disc"}]
        [] e.op = "must" -> [T EXCEPT !.cause = @ \cup {"must"}, !.lossy = TRUE]
        [] OTHER -> T

\* the end of the connection may be behind this error
MayBeClosed(S, k, e) == S.cause # {} \/ S.c[k].late \/ SilentFor(S, e.t)

\* the call has waited for as long as it may, and no longer
TimedOut(S, k, e, d) ==
  /\ d > 0 /\ e.t - Call(S, k).t >= d
  /\ Real \/ S.stalled \/ S.lastU > Call(S, k).t \/ e.t - Call(S, k).t <= d + Late

\* nothing but what the server said in order has ended the connection
Orderly(S, k) == /\ (IF Op(S, k) = "disc" THEN S.cause \ {"disc"} ELSE S.cause) \subseteq InOrder
                 /\ Cardinality({j \in DOMAIN S.c : Op(S, j) = "disc"}) <= 1
                 /\ ~S.closed \/ S.cause \cap InOrder # {} \/ S.discans

RetCheck(S, e) ==
  LET k == e.k
      op == Op(S, k)
      r == S.c[k]
      loc == Local(S, k)
      P == OpProps(S, k)
      closedErr == e.r \in {"closed", "already", "other"} IN
  IF op = "connect" THEN ConnectRet(S, e)
  ELSE IF r.r # 0 THEN P
  ELSE IF op = "active" THEN
    LET n == Call(S, k).sub
        no == \E u \in ValidUnsubs(S, n) : S.c[u].r # 0 /\ S.c[u].r < r.s
        may == ValidUnsubs(S, n) # {} \/ SubEnded(S, n) \/ S.subs[n].fin # "" \/ SilentFor(S, e.t)
    IN  IF e.a THEN (IF no THEN {"C07"} ELSE {}) ELSE (IF may THEN {} ELSE {"C07", "C05"})
  ELSE IF op = "must" THEN IF e.r = "ok" THEN {} ELSE {"C06", "C05"}
  ELSE IF op = "disc" THEN
    LET nothing == r.late \/ S.cause # {"disc"} \/ S.closed
                   \/ \E j \in DOMAIN S.c : j # k /\ Op(S, j) \in {"disc", "must"} IN
    CASE e.r = "ok" -> IF r.ans /\ (S.closed \/ Real) THEN {} ELSE IF nothing /\ r.w = 0 THEN {} ELSE P
      [] e.r = "dtimeout" -> IF TimedOut(S, k, e, O(S).disT) /\ S.closed /\ ~r.late THEN {} ELSE P
      [] OTHER -> IF r.late THEN P \cup {"C05"}
                  ELSE IF r.ans /\ Orderly(S, k) THEN P
                  ELSE IF (S.cause # {"disc"} \/ SilentFor(S, e.t)) /\ S.closed THEN {} ELSE P \cup {"C05"}
  ELSE IF e.r = "void" THEN IF op = "begin" /\ Call(S, k).plain /\ e.m = "" THEN {} ELSE P
  ELSE IF e.r = "ok" THEN
         (IF loc # {} THEN P ELSE {})
    \cup (IF r.late /\ ~(op = "ack" /\ Silent(S, k)) THEN P \cup EndProps(S) ELSE {})
    \cup (IF loc = {} /\ Waits(S, k) /\ ~r.ans /\ ~(op = "unsub" /\ MayBeClosed(S, k, e)) THEN P \cup {"C03"} ELSE {})
    \cup (IF op = "sub" /\ ~(e.id # "" /\ e.dest = Call(S, k).dest /\ e.ack = Call(S, k).ack
                          /\ (r.w # 0 => e.id = S.subs[k].id)) THEN {"C02"} ELSE {})
    \cup (IF op = "begin" /\ e.m # "" THEN {"C08"} ELSE {})
  ELSE IF e.r = "completedsub" /\ op = "unsub" THEN
         IF \/ r.inact \/ SubEnded(S, Call(S, k).sub) \/ SilentFor(S, e.t)
            \/ \E u \in ValidUnsubs(S, Call(S, k).sub) : u # k
         THEN IF r.w # 0 THEN P ELSE {} ELSE P
  ELSE IF loc # {} THEN
         IF e.r \in loc /\ r.w = 0 THEN {}
         ELSE IF closedErr /\ ~r.tdone /\ ~r.inact /\ MayBeClosed(S, k, e) THEN {} ELSE P
  ELSE IF r.late /\ op = "sub" THEN IF closedErr THEN {} ELSE P \cup EndProps(S)
  ELSE CASE e.r = "stimeout" -> IF op = "send" /\ ~InTx(S, k) /\ TimedOut(S, k, e, O(S).msgT) /\ r.w = 0 /\ ~r.late
                                THEN {} ELSE P \cup {"C03"}
         [] e.r = "rtimeout" -> IF op = "send" /\ ~InTx(S, k) /\ Waits(S, k) /\ TimedOut(S, k, e, O(S).rcvT) /\ ~r.late
                                THEN {} ELSE P \cup {"C03"} \cup (IF S.cause # {} THEN {"C05"} ELSE {})
         [] e.r = "utimeout" -> IF op = "unsub" /\ TimedOut(S, k, e, O(S).unsT) /\ ~r.late
                                THEN {} ELSE P
         [] closedErr ->
              LET tmo == Waits(S, k) /\ (op \in {"commit", "abort"} \/ InTx(S, k)) /\ e.r = "closed" /\ TimedOut(S, k, e, S.wt) IN
              IF ~MayBeClosed(S, k, e) /\ ~tmo THEN P \cup {"C05"}
              \* the server's reason
              ELSE IF /\ S.cause = {"err"} /\ ~tmo /\ Val(Ev(S.errf).f, "message") # ""
                      /\ IF e.r = "other" THEN e.m # Val(Ev(S.errf).f, "message") ELSE Waits(S, k) /\ op # "unsub" /\ r.w # 0 /\ r.w < S.errf
                   THEN P \cup {"C05"}
              ELSE IF Waits(S, k) /\ op # "unsub" /\ r.ans /\ Orderly(S, k) /\ ~tmo THEN P
              ELSE {}
         [] OTHER -> P

RetStep(S, e, l) ==
  LET k == e.k
      op == Op(S, k)
      \* "void": Begin says nothing about its success
      T == [S EXCEPT !.c[k].r = l, !.lastA = e.t,
                     !.c[k].sure = e.r \in Handed \/ (e.r = "void" /\ S.cause = {} /\ ~S.closed)] IN
  CASE op = "connect" -> IF e.r = "ok" THEN Up(T, e) ELSE [T EXCEPT !.ph = "failed"]
    [] op \in {"commit", "abort"} /\ e.r = "ok" -> [T EXCEPT !.tx[Call(S, k).tx] = TRUE]
    [] op = "sub" /\ e.r = "ok" ->
         LET s == S.subs[k]
             m == "Subscription%20" \o e.id \o ":%20" \o Call(S, k).dest \o ":%20channel%20unsubscribe%20receipt%20timeout"
         IN  [T EXCEPT !.subs[k] = [@ EXCEPT !.got = TRUE, !.id = e.id, !.notice = m,
                                             !.st = IF s.reply THEN "reg" ELSE @, !.reg = IF s.reply THEN l ELSE @]]
    [] op = "unsub" /\ e.r = "ok" /\ S.subs[Call(S, k).sub].reply -> [T EXCEPT !.subs[Call(S, k).sub].st = "over"]
    \* a Disconnect that finds another one under way does nothing
    [] op \in {"disc", "must"} -> [T EXCEPT !.over = @ \/ op = "must" \/ e.r # "ok" \/ S.c[k].w # 0, !.lossy = @ \/ (op = "disc" /\ e.r # "ok")]
    [] OTHER -> T

------------------------------------------------------------------------------
(* the network connection is closed by the library *)
CloseCheck(S, e) ==
  IF S.ph # "up" THEN {}
  ELSE IF \/ S.cause \ {"disc"} # {}
          \/ S.discans \/ DiscOver(S, e.t)
          \/ SilentFor(S, e.t)
       THEN {} ELSE EndProps(S) \cup {"C10"} \cup (IF O(S).dl > 0 THEN {"C01"} ELSE {})

(* nothing more happens by itself at time e.t *)
Pending(S) == {k \in DOMAIN S.c : S.c[k].r = 0}
Over(S) == \* the connection must have ended by now
  \/ S.cause \cap (InOrder \cup {"reset"}) # {} /\ ~S.stalled /\ ~RStall(S)
  \/ S.cause \cap {"wfail", "must"} # {}
  \/ S.over
  \/ S.discans /\ ~S.stalled /\ ~RStall(S)
  \/ S.closed

QuietConn(S, e) ==
  LET o == O(S) IN
  (IF S.ph = "conning" /\ (o.bad \/ S.resp # 0 \/ S.cause # {} \/ (o.dl > 0 /\ e.t >= o.t + o.dl + Tol)
                           \/ (~S.cw /\ ~S.stalled))
   THEN {"C01"} ELSE {})
  \cup (IF S.ph = "failed" /\ Real /\ ~S.closed THEN {"C01"} ELSE {})

QuietCalls(S, e) ==
  LET P == Pending(S)
      since(k) == Max2(Call(S, k).t, S.lastU)
      fin(k) == IF Op(S, k) = "send" /\ ~InTx(S, k)
                THEN IF O(S).msgT > 0 /\ (AsksReceipt(S, k) => O(S).rcvT > 0) THEN O(S).msgT + (IF AsksReceipt(S, k) THEN O(S).rcvT ELSE 0) ELSE 0
                ELSE IF Op(S, k) = "disc" THEN O(S).disT ELSE 0
  IN  UNION {
        (IF Over(S) THEN {"C05"} \cup OpProps(S, k) \cup (IF Waits(S, k) THEN {"C03"} ELSE {}) ELSE {})
        \cup (IF ~S.stalled /\ (~Waits(S, k) \/ Local(S, k) # {}) THEN OpProps(S, k) \cup {"C04"} ELSE {})
        \cup (IF ~S.stalled /\ Waits(S, k) /\ S.c[k].w = 0 /\ Local(S, k) = {} THEN OpProps(S, k) \cup {"C04"} ELSE {})
        \cup (IF ~S.stalled /\ ~RStall(S) /\ S.c[k].ans THEN OpProps(S, k) \cup {"C03"} ELSE {})
        \cup (IF ~S.stalled /\ Bound(S, k) > 0 /\ e.t - since(k) > Bound(S, k) + Tol THEN OpProps(S, k) \cup {"C03"} ELSE {})
        : k \in P}
      \cup (IF S.stalled /\ P # {} /\ (\A k \in P : fin(k) > 0)
               /\ e.t - Max2(S.lastA, MaxOf({Call(S, k).t : k \in P})) > MaxOf({fin(k) : k \in P}) + Tol
            THEN {"C03"} \cup UNION {OpProps(S, k) : k \in P} ELSE {})

QuietWire(S, e) ==
  IF S.cause # {} \/ S.closed \/ S.stalled THEN {}
  ELSE UNION {OpProps(S, k) \cup {"C04"} : k \in {k \in DOMAIN S.c : MustWrite(S, k)}}
       \cup (IF Gap(S, e) THEN {"C10"} ELSE {})

QuietEnd(S, e) ==
  (IF Over(S) /\ ~S.closed THEN EndProps(S) ELSE {})
  \cup (IF S.lim > 0 /\ ~S.stalled /\ ~RStall(S) /\ ~S.closed /\ e.t - Max2(S.lastR, S.lastU) > S.lim + Tol THEN {"C10"} ELSE {})

QuietSubs(S, e) ==
  UNION {LET s == S.subs[n]
             un == IF Unsubs(S, n) # {} THEN {"C07"} ELSE {} IN
         IF ~s.rd \/ ~s.got THEN {}
         ELSE IF Over(S) \/ (s.st = "over" /\ ~S.stalled /\ ~RStall(S))
         THEN (IF s.fin # "closed" THEN {"C05"} \cup un \cup (IF S.cause = {} THEN {"C02"} ELSE {}) ELSE {})
         ELSE IF S.cause = {} /\ ~S.stalled /\ ~RStall(S) /\ s.buf # <<>> THEN {"C02"} \cup un
         ELSE {}
         : n \in DOMAIN S.subs}

QuietCheck(S, e) ==
  IF S.ph = "up"
  THEN QuietCalls(S, e) \cup QuietWire(S, e) \cup QuietEnd(S, e) \cup QuietSubs(S, e)
  ELSE QuietConn(S, e)

All == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"}

------------------------------------------------------------------------------
(* The properties that event e (number l) violates in state S ... *)
Check(S, e, l) ==
  CASE e.e = "call" /\ "sa" \in DOMAIN e -> IF e.sa THEN {"C09"} ELSE {}  \* nothing to acknowledge
    [] e.e \in {"call", "srv", "shb", "seof", "sgarb", "sreset", "stall", "reading", "wfail"} -> {}
    [] e.e = "ret" -> RetCheck(S, e)
    [] e.e = "wire" -> WireCheck(S, e)
    [] e.e = "hb" -> IF S.ph # "up" THEN {"C01", "C10"}
                     ELSE (IF S.sy = 0 THEN {"C10"} ELSE {})
                          \cup (IF Gap(S, e) THEN {"C10"} ELSE {})
    [] e.e = "garbage" -> {"C04"}
    [] e.e = "netclose" -> CloseCheck(S, e)
    [] e.e = "recv" -> RecvCheck(S, e)
    [] e.e = "again" -> IF \E i \in 1..(l-1) : Ev(i).e = "recv" /\ Ev(i).r = "msg" /\ Ev(i).n = e.n /\ Ev(i).h = e.h /\ Ev(i).b = e.b
                        THEN {} ELSE {"C02"}
    [] e.e = "quiet" -> QuietCheck(S, e)
    [] e.e = "leak" -> IF e.n = 0 THEN {} ELSE {"C11"}
    [] OTHER -> All

(* ... and the states it leads to. *)
Step(S, e, l) ==
  CASE e.e = "call" -> {CallStep(S, e, l)}
    [] e.e = "ret" -> {RetStep(S, e, l)}
    [] e.e = "wire" -> WireStep(S, e, l)
    [] e.e = "hb" -> {[S EXCEPT !.lastW = e.t]}
    [] e.e = "srv" -> SrvSteps(S, e, l)
    [] e.e = "shb" -> {Heard(S, e.t)}
    [] e.e = "seof" -> {[S EXCEPT !.cause = @ \cup {"eof"}]}
    [] e.e = "sgarb" -> {[S EXCEPT !.cause = @ \cup {"garb"}]}
    [] e.e = "sreset" -> {[S EXCEPT !.cause = @ \cup {"reset"}, !.lossy = TRUE]}
    [] e.e = "wfail" -> {[S EXCEPT !.cause = @ \cup {"wfail"}, !.lossy = TRUE]}
    [] e.e = "stall" -> {[S EXCEPT !.stalled = e.on, !.lastU = e.t]}
    [] e.e = "netclose" -> {[S EXCEPT !.closed = TRUE,
                                      !.cause = IF @ = {} /\ S.ph = "up" THEN {"rto"} ELSE @,
                                      !.lossy = @ \/ S.cause = {}]}
    [] e.e = "reading" -> {IF e.k \in DOMAIN S.subs THEN [S EXCEPT !.subs[e.k].rd = TRUE, !.lastU = IF RStall(S) THEN e.t ELSE @] ELSE S}
    [] e.e = "recv" -> {RecvStep(S, e)}
    [] OTHER -> {S}
=============================================================================
