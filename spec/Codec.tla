------------------------------- MODULE Codec -------------------------------
(* STOMP frames on the wire.  A byte stream is a string of tokens, each one  *)
(* character of a TLA+ string:                                               *)
(*   L line feed   R carriage return   E backslash   C colon   0 NUL         *)
(*   S the command SEND   K the text content-length   Y the text 4094        *)
(*   X 4094 times the letter x   z the digit 0   u two bytes of UTF-8         *)
(*   f the byte 255              a n c r 1 2 3 4 5 6 7 8 9 themselves         *)
(* Feed is the decoder, one token at a time; Encode is the encoder.          *)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
Size(t) == IF t = "X" THEN 4094 ELSE IF t = "S" \/ t = "Y" THEN 4 ELSE IF t = "K" THEN 14 ELSE IF t = "u" THEN 2 ELSE 1

RECURSIVE Bytes(_)
Bytes(s) == IF s = "" THEN 0 ELSE Size(Ch(s, 1)) + Bytes(SubSeq(s, 2, Len(s)))

RECURSIVE Pos(_, _, _)
Pos(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Pos(s, c, i + 1)
Contains(s, c) == Pos(s, c, 1) > 0

Code == [n |-> "L", r |-> "R", c |-> "C", E |-> "E"]
RECURSIVE Unesc(_)
\* "?" in the result: not a valid escape sequence, or a character that must be escaped
Unesc(s) ==
  IF s = "" THEN ""
  ELSE IF Ch(s, 1) \in {"R", "C"} THEN "?"
  ELSE IF Ch(s, 1) # "E" THEN Ch(s, 1) \o Unesc(SubSeq(s, 2, Len(s)))
  ELSE IF Len(s) > 1 /\ Ch(s, 2) \in DOMAIN Code THEN Code[Ch(s, 2)] \o Unesc(SubSeq(s, 3, Len(s)))
  ELSE "?"
RECURSIVE Esc(_)
Esc(s) ==
  IF s = "" THEN ""
  ELSE (CASE Ch(s, 1) = "L" -> "En" [] Ch(s, 1) = "R" -> "Er" [] Ch(s, 1) = "C" -> "Ec" [] Ch(s, 1) = "E" -> "EE"
          [] OTHER -> Ch(s, 1)) \o Esc(SubSeq(s, 2, Len(s)))

Digits == [t \in {"z", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE t = "z" -> 0 [] t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] t = "4" -> 4
    [] t = "5" -> 5 [] t = "6" -> 6 [] t = "7" -> 7 [] t = "8" -> 8 [] t = "9" -> 9]
Huge == 200000
Cap(x) == IF x > Huge THEN Huge ELSE x
RECURSIVE Number(_, _)
\* decimal value of a string of digit tokens, -1 if it is none; at most Huge
Number(s, acc) ==
  IF s = "" THEN acc
  ELSE IF Ch(s, 1) = "Y" THEN Number(SubSeq(s, 2, Len(s)), Cap(10000 * acc + 4094))
  ELSE IF Ch(s, 1) \in DOMAIN Digits THEN Number(SubSeq(s, 2, Len(s)), Cap(10 * acc + Digits[Ch(s, 1)]))
  ELSE -1
Num(s) == IF s = "" THEN -1 ELSE Number(s, 0)

------------------------------------------------------------------------------
(* The decoder.  m: what it is in the middle of; b: the line or body so far;  *)
(* h: the header entries so far; n: bytes of body still to come; cl: value of *)
(* content-length; res: what it has returned.  Mode "err" is final: an error  *)
(* has been returned; so is "free": nothing is claimed about what follows.    *)
Start == [m |-> "line", b |-> "", h |-> "", n |-> 0, cl |-> "none", res |-> ""]

\* a CR before the LF belongs to the line end
Line(b) == IF b # "" /\ Ch(b, Len(b)) = "R" THEN SubSeq(b, 1, Len(b) - 1) ELSE b

EndLine(d) ==
  LET s == Line(d.b) IN
  IF s = "" THEN [d EXCEPT !.b = "", !.res = @ \o "H"]
  ELSE IF s = "S" THEN [d EXCEPT !.m = "hdr", !.b = "", !.h = "", !.cl = "none"]
  ELSE [d EXCEPT !.m = "err"]

EndHeader(d) ==
  LET s == Line(d.b)
      p == Pos(s, "C", 1)
      k == Unesc(SubSeq(s, 1, p - 1))
      v == Unesc(SubSeq(s, p + 1, Len(s)))
  IN
  IF s = ""
  THEN IF d.cl = "none" THEN [d EXCEPT !.m = "body", !.b = ""]
       ELSE IF Contains(d.cl, "L") \/ Num(d.cl) < 0 THEN [d EXCEPT !.m = "err"]
       ELSE IF Num(d.cl) = Huge THEN [d EXCEPT !.m = "free"]
       ELSE [d EXCEPT !.m = "bodyN", !.b = "", !.n = Num(d.cl)]
  ELSE IF p <= 1 THEN [d EXCEPT !.m = "err"]
  ELSE IF Contains(k, "?") \/ Contains(v, "?") \/ Contains(s, "X") THEN [d EXCEPT !.m = "free"]
  ELSE [d EXCEPT !.b = "", !.h = @ \o "(" \o k \o "," \o v \o ")",
                 !.cl = IF @ = "none" /\ k = "K" THEN v ELSE @]

Done(d) == [d EXCEPT !.m = "line", !.b = "", !.res = @ \o "<" \o d.h \o "!" \o d.b \o ">"]

Feed(d, t) ==
  CASE d.m \in {"err", "free"} -> d
    [] d.m \in {"line", "hdr"} ->
         IF t # "L" THEN [d EXCEPT !.b = @ \o t]
         ELSE IF d.m = "line" THEN EndLine(d) ELSE EndHeader(d)
    [] d.m = "body" -> IF t = "0" THEN Done(d) ELSE [d EXCEPT !.b = @ \o t]
    [] d.m = "bodyN" ->
         IF d.n = 0 THEN (IF t = "0" THEN Done(d) ELSE [d EXCEPT !.m = "err"])
         ELSE IF Size(t) <= d.n THEN [d EXCEPT !.b = @ \o t, !.n = @ - Size(t)]
         ELSE [d EXCEPT !.m = "err"]      \* goes on where a NUL must be

RECURSIVE Run(_, _)
Run(d, s) == IF s = "" THEN d ELSE Run(Feed(d, Ch(s, 1)), SubSeq(s, 2, Len(s)))

------------------------------------------------------------------------------
(* A frame to encode: header entries <<name, value>> and body. *)
RECURSIVE Entries(_, _), Shown(_)
Entries(h, eol) == IF h = <<>> THEN "" ELSE
  Esc(h[1][1]) \o "C" \o Esc(h[1][2]) \o eol \o Entries(Tail(h), eol)
Shown(h) == IF h = <<>> THEN "" ELSE "(" \o h[1][1] \o "," \o h[1][2] \o ")" \o Shown(Tail(h))
Encode(f, eol) == "S" \o eol \o Entries(f.h, eol) \o eol \o f.b \o "0"
Result(f) == "<" \o Shown(f.h) \o "!" \o f.b \o ">"
=============================================================================
