----------------------------- MODULE CodecRound -----------------------------
(* All small frames: encoding and decoding gives them back. *)
EXTENDS Codec, FiniteSets

CONSTANTS Chars, BodyChars, Names, Values, Bodies, Entries2

VARIABLES f, out, crlf
vars == <<f, out, crlf>>

RECURSIVE Strings(_, _)
Strings(A, k) == IF k = 0 THEN {""} ELSE LET X == Strings(A, k - 1) IN X \cup {x \o a : x \in {y \in X : Len(y) = k - 1}, a \in A}

Entry == {<<k, v>> : k \in Strings(Chars, Names) \ {""}, v \in Strings(Chars, Values)}
Simple == {<<k, v>> : k \in {"a", "E", "n"}, v \in {"", "L", "aE"}}
Headers == {<<e>> : e \in Entry} \cup (IF Entries2 THEN {<<e, g>> : e, g \in Simple} ELSE {}) \cup {<<>>}
Dec(k) == CASE k = 0 -> "none" [] k = 1 -> "1" [] k = 2 -> "2" [] k = 11 -> "11" [] k = 12 -> "12" [] k = 4094 -> "Y" [] OTHER -> "none"
Length(b) == Dec(Bytes(b))

Framed(h, b) ==      \* delimited by the first NUL, or by content-length at either end
  (IF Contains(b, "0") THEN {} ELSE {[h |-> h, b |-> b]})
  \cup (IF Length(b) = "none" THEN {}
        ELSE {[h |-> <<<<"K", Length(b)>>>> \o h, b |-> b], [h |-> h \o <<<<"K", Length(b)>>>>, b |-> b]})

Init == /\ f \in UNION {Framed(h, b) : h \in Headers, b \in Strings(BodyChars, Bodies)}
        /\ out = Encode(f, "L") /\ crlf = Encode(f, "RL")
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Back(s) == LET d == Run(Start, s) IN d.m = "line" /\ d.b = "" /\ d.res = Result(f)
RoundTrip == Back(out) /\ Back(crlf)
\* special characters only in escaped form, and exactly one NUL after the body
Top == SubSeq(out, 1, Len(out) - Len(f.b) - 1)
RECURSIVE Count(_, _)
Count(s, c) == IF s = "" THEN 0 ELSE (IF Ch(s, 1) = c THEN 1 ELSE 0) + Count(SubSeq(s, 2, Len(s)), c)
Escaped == /\ Count(Top, "L") = Len(f.h) + 2
           /\ Count(Top, "C") = Len(f.h)
           /\ ~Contains(Top, "R") /\ ~Contains(Top, "0")
Twice == LET d == Run(Start, out \o "L" \o crlf) IN d.m = "line" /\ d.res = Result(f) \o "H" \o Result(f)
=============================================================================
