------------------------------ MODULE ByteWalk ------------------------------
(* Walks over the bytes of a text.  Long ones are written by halves: TLC     *)
(* needs time that grows with the square of the depth of a recursion.        *)
EXTENDS Integers, Sequences

Half(n) == n \div 2
InAt(t, p, B) == p < Len(t) /\ t[p+1] \in B

(* The end of the bytes of B among the k bytes from p.                       *)
RECURSIVE SpanUpTo(_, _, _, _)
SpanUpTo(t, p, k, B) ==
  IF k <= 0 \/ ~InAt(t, p, B) THEN p
  ELSE IF k <= 8 THEN SpanUpTo(t, p+1, k-1, B)
  ELSE LET q == SpanUpTo(t, p, Half(k), B)
       IN IF q < p + Half(k) THEN q ELSE SpanUpTo(t, q, k - Half(k), B)
Span(t, p, B) ==
  LET q == SpanUpTo(t, p, 8, B) IN IF q < p + 8 THEN q ELSE SpanUpTo(t, q, Len(t) - q, B)

(* The first place of w from lo up to hi, -1 if there is none.               *)
WordAt(t, p, w) == p + Len(w) <= Len(t) /\ (w # <<>> => t[p+1] = w[1]) /\ SubSeq(t, p+1, p+Len(w)) = w
RECURSIVE FindUpTo(_, _, _, _)
FindUpTo(t, lo, hi, w) ==
  IF lo > hi THEN -1
  ELSE IF WordAt(t, lo, w) THEN lo
  ELSE IF hi < lo + 8 THEN FindUpTo(t, lo+1, hi, w)
  ELSE LET a == FindUpTo(t, lo, Half(lo + hi), w)
       IN IF a # -1 THEN a ELSE FindUpTo(t, Half(lo + hi) + 1, hi, w)
Find(t, p, w) == FindUpTo(t, p, Len(t) - Len(w), w)
=============================================================================
