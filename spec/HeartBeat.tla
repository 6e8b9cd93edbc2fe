----------------------------- MODULE HeartBeat -----------------------------
(***************************************************************************)
(* Heart-beats of the server side of one connection, in microseconds.      *)
(* h is a record with the fields                                           *)
(*   wp, rp   the period (ms) in which the server must write / the client  *)
(*            promised to send; 0: none                                    *)
(*   lw, li   when the server wrote last / something complete arrived last *)
(* Tol is how late things may be noticed.                                  *)
(***************************************************************************)
EXTENDS Integers

\* the server owes a write by this time
WriteDue(h, tol) == h.lw + 1000 * h.wp + tol
\* nothing arrived for twice the period: the connection is given up then ...
Silent(h, t) == h.rp > 0 /\ t >= h.li + 2000 * h.rp
\* ... and not much later
Overdue(h, t, tol) == h.rp > 0 /\ t > h.li + 2000 * h.rp + tol
WriteLate(h, t, tol) == h.wp > 0 /\ t > WriteDue(h, tol)
=============================================================================
