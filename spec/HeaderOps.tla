----------------------------- MODULE HeaderOps -----------------------------
(* Two frames and everything one can do to their headers, up to a number of  *)
(* operations.  Every state is a case for the real code: after ops, the two  *)
(* frames look as in shown.                                                  *)
EXTENDS StompBase

CONSTANTS Depth, Keys, Inits, Self

VARIABLES ops, n, h, b, shown
vars == <<ops, n, h, b, shown>>

(* beginnings: name and header *)
Begin == [
  e |-> <<>>,
  o |-> <<<<"a", "x">>, <<"b", "">>>>,            \* NewHeader with an odd number of strings
  m |-> <<<<"a", "x">>, <<"b", "y">>, <<"a", "z">>, <<"a", "w">>, <<"b", "v">>>>,
  d |-> <<<<"b", "p">>, <<"a", "q">>, <<"a", "r">>, <<"a", "s">>>>]

RECURSIVE ShowH(_), HAll(_, _)
ShowH(x) == IF x = <<>> THEN "" ELSE "(" \o x[1][1] \o "," \o x[1][2] \o ")" \o ShowH(Tail(x))
HAll(x, y) == IF y = <<>> THEN x ELSE HAll(HAdd(x, y[1][1], y[1][2]), Tail(y))
Show(x, c) == ShowH(x[1]) \o "!" \o c[1] \o "/" \o ShowH(x[2]) \o "!" \o c[2]

Obj == {1, 2}
Other(o) == 3 - o
Did(name, x, c) == /\ ops' = ops \o " " \o name /\ n' = n + 1
                   /\ h' = x /\ b' = c /\ shown' = Show(x, c)
V == ToString(n + 1)

Init == \E i \in Inits :
  /\ ops = i /\ n = 0 /\ h = <<Begin[i], <<>>>> /\ b = <<"uv", "">>
  /\ shown = Show(h, b)
Next ==
  /\ n < Depth
  /\ \E o \in Obj :
       \/ \E k \in Keys :
            \/ Did("A" \o ToString(o) \o k, [h EXCEPT ![o] = HAdd(@, k, V)], b)
            \/ Did("S" \o ToString(o) \o k, [h EXCEPT ![o] = HSet(@, k, V)], b)
            \/ Did("D" \o ToString(o) \o k, [h EXCEPT ![o] = HDel(@, k)], b)
       \/ \E p \in Obj : (p = o => Self) /\ Did("H" \o ToString(o) \o ToString(p), [h EXCEPT ![o] = HAll(@, h[p])], b)
       \/ Did("N" \o ToString(o), h, b)                 \* AddHeader(nil)
       \/ Did("C" \o ToString(o), [h EXCEPT ![Other(o)] = h[o]], [b EXCEPT ![Other(o)] = b[o]])   \* clone the frame
       \/ Did("c" \o ToString(o), [h EXCEPT ![Other(o)] = h[o]], b)                              \* clone the header
       \/ b[o] # "" /\ Did("B" \o ToString(o), h, [b EXCEPT ![o] = V \o SubSeq(b[o], 2, Len(b[o]))])
Spec == Init /\ [][Next]_vars

\* what the accessors report, in terms of the entries
Accessors ==
  \A o \in Obj : \A k \in Keys :
    /\ HVals(h[o], k) = SelectSeq([i \in 1..Len(h[o]) |-> IF h[o][i][1] = k THEN h[o][i][2] ELSE "none"], LAMBDA v : v # "none")
    /\ HasH(h[o], k) <=> HVals(h[o], k) # <<>>
    /\ HasH(h[o], k) => h[o][First(h[o], k)][2] = HVals(h[o], k)[1]
\* an operation on one frame leaves the other alone, unless it replaces it
Apart == [][\A o \in Obj : h'[o] # h[o] =>
              \/ h'[Other(o)] = h[Other(o)]]_vars
=============================================================================
