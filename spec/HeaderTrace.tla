---------------------------- MODULE HeaderTrace ----------------------------
(* Long histories of operations on two real frames: each event is one         *)
(* operation and how both frames look afterwards.                             *)
EXTENDS StompBase, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, h, b
vars == <<tr, l, h, b>>
Ev == Traces[tr].ev
RECURSIVE ShowH(_), HAll(_, _)
ShowH(x) == IF x = <<>> THEN "" ELSE "(" \o x[1][1] \o "," \o x[1][2] \o ")" \o ShowH(Tail(x))
HAll(x, y) == IF y = <<>> THEN x ELSE HAll(HAdd(x, y[1][1], y[1][2]), Tail(y))
Show(x, c) == ShowH(x[1]) \o "!" \o c[1] \o "/" \o ShowH(x[2]) \o "!" \o c[2]
RECURSIVE Commas(_)
Commas(q) == IF q = <<>> THEN "" ELSE q[1] \o ";" \o Commas(Tail(q))
\* what the accessors say about name k of header x: Contains, Get and GetAll
Asked(x, k) == (IF HasH(x, k) THEN "+" \o x[First(x, k)][2] ELSE "-") \o ":" \o Commas(HVals(x, k))

HOf(e) ==
  LET o == e.o IN
  CASE e.op = "A" -> [h EXCEPT ![o] = HAdd(@, e.k, e.v)]
    [] e.op = "S" -> [h EXCEPT ![o] = HSet(@, e.k, e.v)]
    [] e.op = "D" -> [h EXCEPT ![o] = HDel(@, e.k)]
    [] e.op = "H" -> [h EXCEPT ![o] = HAll(@, h[e.p])]
    [] e.op \in {"C", "c"} -> [h EXCEPT ![3 - o] = h[o]]
    [] OTHER -> h
BOf(e) ==
  CASE e.op = "C" -> [b EXCEPT ![3 - e.o] = b[e.o]]
    [] e.op = "B" -> [b EXCEPT ![e.o] = SubSeq(@, 1, e.p - 1) \o e.v \o SubSeq(@, e.p + 1, Len(@))]
    [] e.op = "W" -> [b EXCEPT ![e.o] = e.v]         \* a new body
    [] OTHER -> b
Init == tr \in DOMAIN Traces /\ l = 1 /\ h = <<<<>>, <<>>>> /\ b = <<"", "">>
Next == /\ l <= Len(Ev)
        /\ h' = HOf(Ev[l]) /\ b' = BOf(Ev[l])
        /\ Show(h', b') = Ev[l].shown
        /\ Asked(h'[Ev[l].o], Ev[l].k) = Ev[l].asked
        /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Track == (l > TLCGetOrDefault(tr, 0)) => TLCSet(tr, l)
Report == TLCGet("stats").diameter >= 0 =>
  \A t \in DOMAIN Traces :
    PrintT(<<"VERDICT", t, IF TLCGetOrDefault(t, 0) > Len(Traces[t].ev) THEN "ok" ELSE "rejected",
             TLCGetOrDefault(t, 0), 1, {"F03"}>>)
=============================================================================
