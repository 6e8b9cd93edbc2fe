----------------------------- MODULE CodecTrace -----------------------------
(* What the real reader and writer did, against Codec.  A trace is either    *)
(*   [k |-> "dec", inp, res, end]   a stream given to the reader: what it     *)
(*        returned, and how it ended: "more" (it asked for more) or "err"     *)
(*   [k |-> "enc", frames, wires, res]  frames written by one writer: the     *)
(*        bytes of each, and what a reader made of them all                   *)
EXTENDS Codec, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
vars == <<tr, l>>
T == Traces[tr]

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Decoded ==
  LET d == Run(Start, T.inp) IN
  CASE d.m = "free" -> Prefix(d.res, T.res)
    [] d.m = "err" -> T.res = d.res /\ T.end = "err"
    [] OTHER -> T.res = d.res /\ T.end = "more"
RECURSIVE Wrote(_), Results(_)
Wrote(i) == IF i > Len(T.frames) THEN TRUE
            ELSE T.wires[i] \in {Encode(T.frames[i], "L"), Encode(T.frames[i], "RL")} /\ Wrote(i + 1)
Results(i) == IF i > Len(T.frames) THEN "" ELSE Result(T.frames[i]) \o Results(i + 1)
Ok == IF T.k = "dec" THEN Decoded ELSE Wrote(1) /\ T.res = Results(1) /\ T.late = Results(1)
Init == tr \in DOMAIN Traces /\ l = 1
Next == l = 1 /\ Ok = TRUE /\ l' = 2 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

Track == (l = 2) => TLCSet(tr, 1)
Report == TLCGet("stats").diameter >= 0 =>
  \A t \in DOMAIN Traces :
    PrintT(<<"VERDICT", t, IF TLCGetOrDefault(t, 0) = 1 THEN "ok" ELSE "rejected", 1, 1, IF Traces[t].k = "enc" THEN {"F01"} ELSE {"F02"}>>)
=============================================================================
