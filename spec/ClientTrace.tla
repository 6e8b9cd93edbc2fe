---------------------------- MODULE ClientTrace ----------------------------
(* Checks traces recorded from the real client library against ClientConn.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l, S
vars == <<tr, l, S>>

Evs == Traces[tr].ev
EvAt(i) == Traces[tr].ev[i]
C == INSTANCE ClientConn WITH Ev <- EvAt, Tol <- Traces[tr].cfg.tol, Late <- 500000, Real <- Traces[tr].cfg.real
Budget == IF "BUDGET" \in DOMAIN IOEnv THEN C!Num(IOEnv.BUDGET) ELSE 150000

Init == tr \in DOMAIN Traces /\ l = 1 /\ S = C!InitState

Next ==
  /\ l <= Len(Evs)
  /\ C!Check(S, Evs[l], l) = {}
  /\ S' \in C!Step(S, Evs[l], l)
  /\ l' = l + 1 /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars

(* bookkeeping as in BrokerTrace *)
Reg(k) == TLCGetOrDefault(k, 0)
Front == IF "FRONT" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.FRONT)[1] ELSE <<>>

Accuse ==
  (Front # <<>> /\ l = Front[tr] /\ l <= Len(Evs)) =>
     TLCSet(4 * tr + 3, TLCGetOrDefault(4 * tr + 3, {}) \cup C!Check(S, Evs[l], l))

Track ==
  /\ Reg(4 * tr + 2) = 0
  /\ Reg(4 * tr + 1) < Budget
  /\ TLCSet(4 * tr + 1, Reg(4 * tr + 1) + 1)
  /\ (l > Reg(4 * tr)) => TLCSet(4 * tr, l)
  /\ (l > Len(Evs)) => TLCSet(4 * tr + 2, 1)
  /\ Accuse

Report == TLCGet("stats").diameter >= 0 =>
  \A t \in DOMAIN Traces :
    PrintT(<<"VERDICT", t, IF Reg(4 * t + 2) = 1 THEN "ok"
                           ELSE IF Reg(4 * t + 1) >= Budget THEN "budget" ELSE "rejected",
             Reg(4 * t), Reg(4 * t + 1), TLCGetOrDefault(4 * t + 3, {})>>)
=============================================================================
