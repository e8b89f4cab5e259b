------------------------------ MODULE Segments ------------------------------
(* Tokens (half-open byte ranges), segments (tokens with an info), the graph *)
(* of segments, sorting and segmentation.                                    *)
(*                                                                           *)
(* A token is [a, b], a segment [i, a, b] and a node of a graph              *)
(* [i, a, b, c] where c is the list of its child nodes.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Tok(x, y) == IF x <= y THEN [a |-> x, b |-> y] ELSE [a |-> y, b |-> x]

Length(t)     == t.b - t.a
Before(t, u)  == t.b <= u.a
After(t, u)   == Before(u, t)
Covers(t, u)  == t.a <= u.a /\ u.b <= t.b
Clashes(t, u) == \/ t.a < u.a /\ u.a < t.b /\ t.b < u.b
                 \/ u.a < t.a /\ t.a < u.b /\ u.b < t.b
Min(x, y)     == IF x <= y THEN x ELSE y
Max(x, y)     == IF x <= y THEN y ELSE x
Merge(t, u)   == [a |-> Min(t.a, u.a), b |-> Max(t.b, u.b)]
Split(t, u)   == <<Tok(t.a, u.a), Tok(u.b, t.b)>>
TokText(t)    == "[" \o ToString(t.a) \o "-" \o ToString(t.b) \o ")"
SegText(s)    == s.i \o TokText(s)
SameRange(t, u) == t.a = u.a /\ t.b = u.b
Empty(t)      == t.a = t.b

(* ------------------------------------------------------------------- graph *)
(* All nodes below n, in the order of a walk from left to right.             *)
(* Lists are walked by halves, see ScannerOps.                               *)
Half(n) == n \div 2
RECURSIVE Below(_)
RECURSIVE BelowAll(_, _, _)
BelowAll(ns, lo, hi) ==
  IF lo > hi THEN <<>> ELSE IF lo = hi THEN <<ns[lo]>> \o Below(ns[lo])
  ELSE BelowAll(ns, lo, Half(lo + hi)) \o BelowAll(ns, Half(lo + hi) + 1, hi)
Below(n)     == BelowAll(n.c, 1, Len(n.c))
Seg(n)       == [i |-> n.i, a |-> n.a, b |-> n.b]
SegsBelow(n) == LET w == Below(n) IN [k \in 1..Len(w) |-> Seg(w[k])]

Count(s, x)  == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s, s[k]) = Count(t, s[k])

(* Children are inside of their parent, and siblings in text order without   *)
(* overlap; none of them could be a child of another.                        *)
RECURSIVE Nested(_)
Nested(n) ==
  /\ \A k \in 1..Len(n.c) : Covers(n, n.c[k]) /\ Nested(n.c[k])
  /\ \A j, k \in 1..Len(n.c) : j < k => Before(n.c[j], n.c[k])
  /\ \A j, k \in 1..Len(n.c) : j # k => ~Covers(n.c[j], n.c[k])

(* Of two accepted segments with the same range that is not empty the later  *)
(* one is above the earlier one.  In a walk, ancestors come first.           *)
LaterAbove(acc, n) ==
  LET w == SegsBelow(n)
      same(s, x) == SelectSeq(s, LAMBDA y : SameRange(x, y))
      rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
  IN \A k \in 1..Len(acc) : Empty(acc[k]) \/ same(w, acc[k]) = rev(same(acc, acc[k]))

(* The range that spans all of the segments.                                 *)
RECURSIVE SpanOf(_, _, _)
SpanOf(s, lo, hi) == IF lo = hi THEN [a |-> s[lo].a, b |-> s[lo].b]
                     ELSE Merge(SpanOf(s, lo, Half(lo + hi)), SpanOf(s, Half(lo + hi) + 1, hi))
Span(s) == SpanOf(s, 1, Len(s))

(* root is a graph of exactly the accepted segments acc.                     *)
GraphOf(acc, root) ==
  /\ SameBag(SegsBelow(root), acc)
  /\ Nested(root)
  /\ LaterAbove(acc, root)
  /\ acc # <<>> => SameRange(root, Span(acc))

Accepts(acc, s) == \A k \in 1..Len(acc) : ~Clashes(acc[k], s)

RECURSIVE Leafs(_)
RECURSIVE LeafsOf(_, _, _)
LeafsOf(ns, lo, hi) ==
  IF lo = hi THEN Leafs(ns[lo]) ELSE LeafsOf(ns, lo, Half(lo + hi)) \o LeafsOf(ns, Half(lo + hi) + 1, hi)
Leafs(n)    == IF n.c = <<>> THEN <<Seg(n)>> ELSE LeafsOf(n.c, 1, Len(n.c))

(* The lines of the flame stack: the path of "number.segment", joined with   *)
(* ";", a space and the length of the segment.                               *)
RECURSIVE Flame(_, _, _)
RECURSIVE FlameOf(_, _, _, _)
FlameOf(prefix, ns, lo, hi) ==
  IF lo > hi THEN <<>> ELSE IF lo = hi THEN Flame(prefix, lo, ns[lo])
  ELSE FlameOf(prefix, ns, lo, Half(lo + hi)) \o FlameOf(prefix, ns, Half(lo + hi) + 1, hi)
Flame(prefix, k, n) ==
  LET path == prefix \o ToString(k) \o "." \o SegText(n)
  IN <<path \o " " \o ToString(Length(n))>> \o FlameOf(path \o ";", n.c, 1, Len(n.c))

(* Appending as a function: the new segment becomes a child of the smallest  *)
(* node that covers it and takes over the children it covers.  (An empty     *)
(* segment between two neighbours belongs to the left one.)                  *)
RECURSIVE Insert(_, _)
Insert(n, s) ==
  LET into == {k \in 1..Len(n.c) : Covers(n.c[k], s) /\ ~SameRange(n.c[k], s)}
      least(S) == CHOOSE k \in S : \A j \in S : k <= j
      taken == SelectSeq(n.c, LAMBDA x : Covers(s, x))
      stay  == SelectSeq(n.c, LAMBDA x : ~Covers(s, x))
      left  == SelectSeq(stay, LAMBDA x : Before(x, s))
      right == SelectSeq(stay, LAMBDA x : ~Before(x, s))
  IN IF into # {} THEN [n EXCEPT !.c[least(into)] = Insert(@, s)]
     ELSE [n EXCEPT !.c = left \o <<[i |-> s.i, a |-> s.a, b |-> s.b, c |-> taken]>> \o right]
AppendTo(root, s) ==
  LET m == IF Covers(root, s) THEN root
           ELSE IF root.c = <<>> THEN [root EXCEPT !.a = s.a, !.b = s.b]
           ELSE [root EXCEPT !.a = Min(root.a, s.a), !.b = Max(root.b, s.b)]
  IN Insert(m, s)

(* ----------------------------------------------------------------- sorting *)
Less(s, t) == s.a < t.a \/ (s.a = t.a /\ s.b > t.b)
Rank(order, s) ==
  IF \E k \in 1..Len(order) : order[k] = s.i THEN CHOOSE k \in 1..Len(order) : order[k] = s.i ELSE 0
LessBy(order, s, t) == Less(s, t) \/ (SameRange(s, t) /\ Rank(order, s) < Rank(order, t))

(* The place of every segment in the sorted list: behind those that are less *)
(* and behind those before it that are not greater.                          *)
Places(order, s) ==
  LET n == 1..Len(s)
      rank == TLCEval([k \in n |-> Rank(order, s[k])])
      less(j, k) == Less(s[j], s[k]) \/ (SameRange(s[j], s[k]) /\ rank[j] < rank[k])
  IN [k \in n |-> 1 + Cardinality({j \in n : less(j, k) \/ (j < k /\ ~less(k, j))})]
Sorted(order, s) ==
  LET p == TLCEval(Places(order, s)) IN [r \in 1..Len(s) |-> s[CHOOSE k \in 1..Len(s) : p[k] = r]]

(* ------------------------------------------------------------ segmentation *)
Divides(t, list) ==
  /\ \A k \in 1..Len(list) : Covers(t, list[k])
  /\ \A k \in 1..Len(list)-1 : list[k].b <= list[k+1].a
Gap(info, x, y) == IF x < y THEN <<[i |-> info, a |-> x, b |-> y]>> ELSE <<>>
RECURSIVE TilesOf(_, _, _, _, _)
TilesOf(info, p, list, lo, hi) ==
  IF lo = hi THEN Gap(info, p, list[lo].a) \o <<list[lo]>>
  ELSE TilesOf(info, p, list, lo, Half(lo + hi)) \o TilesOf(info, list[Half(lo + hi)].b, list, Half(lo + hi) + 1, hi)
Tiles(info, p, q, list) ==
  IF list = <<>> THEN Gap(info, p, q)
  ELSE TilesOf(info, p, list, 1, Len(list)) \o Gap(info, list[Len(list)].b, q)
=============================================================================
