----------------------------- MODULE StompBase -----------------------------
(* Frames as they appear in traces, and arithmetic on their headers.  A      *)
(* frame is a record [cmd, h, b]: command, sequence of <<name, value>>, body. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Has(f, k) == \E i \in DOMAIN f.h : f.h[i][1] = k
Val(f, k) == IF Has(f, k)
             THEN f.h[CHOOSE i \in DOMAIN f.h : f.h[i][1] = k
                                                /\ \A j \in 1..(i-1) : f.h[j][1] # k][2]
             ELSE ""
(* headers as ordered multimaps *)
HasH(h, k) == \E i \in DOMAIN h : h[i][1] = k
First(h, k) == CHOOSE i \in DOMAIN h : h[i][1] = k /\ \A j \in 1..(i-1) : h[j][1] # k
HAdd(h, k, v) == Append(h, <<k, v>>)
HSet(h, k, v) == IF HasH(h, k) THEN [h EXCEPT ![First(h, k)] = <<k, v>>] ELSE Append(h, <<k, v>>)
HDel(h, k) == SelectSeq(h, LAMBDA x : x[1] # k)
HVals(h, k) == LET x == SelectSeq(h, LAMBDA y : y[1] = k) IN [i \in DOMAIN x |-> x[i][2]]
HNames(h) == {h[i][1] : i \in DOMAIN h}

RECURSIVE Split(_, _)
Split(s, acc) ==      \* split at commas
  IF s = "" THEN <<acc>>
  ELSE IF SubSeq(s, 1, 1) = "," THEN <<acc>> \o Split(SubSeq(s, 2, Len(s)), "")
  ELSE Split(SubSeq(s, 2, Len(s)), acc \o SubSeq(s, 1, 1))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "," \o Join(Tail(q))

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
IsNum(s, n) == s # "" /\ Len(s) <= n /\ \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN Digit
RECURSIVE Num(_)
Num(s) == IF s = "" THEN 0
          ELSE 10 * Num(SubSeq(s, 1, Len(s) - 1)) + Digit[SubSeq(s, Len(s), Len(s))]

Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(X) == CHOOSE x \in X : \A y \in X : y <= x
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y

HeartBeatOK(f) ==
  Has(f, "heart-beat") =>
    LET p == Split(Val(f, "heart-beat"), "")
    IN  Len(p) = 2 /\ IsNum(p[1], 9) /\ IsNum(p[2], 9)
HeartBeat(f) == IF Has(f, "heart-beat")
                THEN LET p == Split(Val(f, "heart-beat"), "") IN <<Num(p[1]), Num(p[2])>>
                ELSE <<0, 0>>
=============================================================================
