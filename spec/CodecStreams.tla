---------------------------- MODULE CodecStreams ----------------------------
(* All token streams up to a length, after each of a few beginnings.  Every   *)
(* state is a case for the real decoder: after inp it has returned d.res.     *)
EXTENDS Codec, FiniteSets

CONSTANTS Depth, Tokens, Starts

VARIABLES inp, n, d
vars == <<inp, n, d>>

Init == /\ inp \in Starts /\ n = 0 /\ d = Run(Start, inp)
Next ==
  /\ n < Depth
  /\ d.m \notin {"err", "free"}
  /\ \E t \in Tokens :
       /\ inp' = inp \o t
       /\ d' = Feed(d, t)
       /\ n' = n + 1
Spec == Init /\ [][Next]_vars

\* the decoder never takes back what it has returned
Grows == [][Len(d'.res) >= Len(d.res) /\ SubSeq(d'.res, 1, Len(d.res)) = d.res]_vars
\* what it returned is what those bytes decode to, however they are cut
Chunks == \A i \in 0..Len(inp) : Run(Run(Start, SubSeq(inp, 1, i)), SubSeq(inp, i + 1, Len(inp))) = d
=============================================================================
