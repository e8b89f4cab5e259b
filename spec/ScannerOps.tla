----------------------------- MODULE ScannerOps -----------------------------
(* The meaning of every scanner call, as a function of the text t, the       *)
(* cursor p and the call o (a record with the field op and its arguments).   *)
(* The result is [ok, p, v]: what the call reports, the new cursor and the   *)
(* value it returns, if any.                                                 *)
EXTENDS Utf8, Numbers

Res(ok, p, v) == [ok |-> ok, p |-> p, v |-> v]
Stay(p)       == Res(FALSE, p, <<>>)
Go(p)         == Res(TRUE, p, <<>>)

HasAt(t, p, s)     == p + Len(s) <= Len(t) /\ (s # <<>> => t[p+1] = s[1]) /\ SubSeq(t, p+1, p+Len(s)) = s
HasBefore(t, p, s) == Len(s) <= p /\ (s # <<>> => t[p] = s[Len(s)]) /\ SubSeq(t, p-Len(s)+1, p) = s
FoldAt(t, p, s)     == p + Len(s) <= Len(t) /\ EqualFold(SubSeq(t, p+1, p+Len(s)), s)
FoldBefore(t, p, s) == Len(s) <= p /\ EqualFold(SubSeq(t, p-Len(s)+1, p), s)

(* Walks over long texts are written by halves: TLC needs time that grows   *)
(* with the square of the depth of a recursion.                              *)
Half(n) == n \div 2

(* First offset from lo up to hi at which s is, -1 if there is none.         *)
RECURSIVE FirstAt(_, _, _, _, _)
FirstAt(t, lo, hi, s, fold) ==
  IF lo > hi THEN -1
  ELSE IF lo = hi THEN IF IF fold THEN FoldAt(t, lo, s) ELSE HasAt(t, lo, s) THEN lo ELSE -1
  ELSE LET mid == Half(lo + hi)
           a == FirstAt(t, lo, mid, s, fold)
       IN IF a # -1 THEN a ELSE FirstAt(t, mid + 1, hi, s, fold)
(* Last offset from lo up to hi before which s is, -1 if there is none.      *)
RECURSIVE LastBefore(_, _, _, _, _)
LastBefore(t, lo, hi, s, fold) ==
  IF lo > hi THEN -1
  ELSE IF lo = hi THEN IF IF fold THEN FoldBefore(t, lo, s) ELSE HasBefore(t, lo, s) THEN lo ELSE -1
  ELSE LET mid == Half(lo + hi)
           a == LastBefore(t, mid + 1, hi, s, fold)
       IN IF a # -1 THEN a ELSE LastBefore(t, lo, mid, s, fold)
FindHasAt(t, q, s)      == FirstAt(t, q, Len(t) - Len(s), s, FALSE)
FindFoldAt(t, q, s)     == FirstAt(t, q, Len(t) - Len(s), s, TRUE)
FindHasBefore(t, q, s)  == LastBefore(t, Len(s), q, s, FALSE)
FindFoldBefore(t, q, s) == LastBefore(t, Len(s), q, s, TRUE)

(* What a rune test of a call accepts.                                       *)
Accepts(o, r) ==
  CASE o.m = "rune"    -> r = o.r
    [] o.m = "any"     -> \E i \in 1..Len(o.rs) : o.rs[i] = r
    [] o.m = "between" -> o.lo <= r /\ r <= o.hi
    [] o.m = "match"   -> \E i \in 1..Len(o.rs) : o.rs[i] = r
    [] o.m = "nmatch"  -> \A i \in 1..Len(o.rs) : o.rs[i] # r

IfRuneTest(t, p, o) ==
  LET d == DecodeAt(t, p) IN
  IF d[2] > 0 /\ Accepts(o, d[1]) THEN Go(p + d[2]) ELSE Stay(p)
RevIfRuneTest(t, p, o) ==
  LET d == DecodeBefore(t, p) IN
  IF d[2] > 0 /\ Accepts(o, d[1]) THEN Go(p - d[2]) ELSE Stay(p)

(* Looks at up to k >= 1 runes from p for one that is accepted (or, if not   *)
(* yes, that is not accepted): <<found, its offset or where the walk ended>>. *)
RECURSIVE Walk(_, _, _, _, _)
Walk(t, p, o, yes, k) ==
  IF p >= Len(t) THEN <<FALSE, p>>
  ELSE IF k <= 1 THEN LET d == DecodeAt(t, p) IN IF Accepts(o, d[1]) = yes THEN <<TRUE, p>> ELSE <<FALSE, p + d[2]>>
  ELSE LET a == Walk(t, p, o, yes, Half(k)) IN IF a[1] THEN a ELSE Walk(t, a[2], o, yes, k - Half(k))
(* The same back from p, with the end of the rune.                           *)
RECURSIVE WalkBack(_, _, _, _, _)
WalkBack(t, p, o, yes, k) ==
  IF p <= 0 THEN <<FALSE, p>>
  ELSE IF k <= 1 THEN LET d == DecodeBefore(t, p) IN IF Accepts(o, d[1]) = yes THEN <<TRUE, p>> ELSE <<FALSE, p - d[2]>>
  ELSE LET a == WalkBack(t, p, o, yes, Half(k)) IN IF a[1] THEN a ELSE WalkBack(t, a[2], o, yes, k - Half(k))

(* Offset of the first rune at or behind p that is accepted (or, if not yes, *)
(* that is not accepted), -1 if there is none.                               *)
FindRune(t, p, o, yes)    == LET a == Walk(t, p, o, yes, Len(t) - p) IN IF a[1] THEN a[2] ELSE -1
(* End of the last such rune that ends at or before p.                       *)
RevFindRune(t, p, o, yes) == LET a == WalkBack(t, p, o, yes, p) IN IF a[1] THEN a[2] ELSE -1

ToRuneTest(t, p, o) ==
  LET q == FindRune(t, p, o, TRUE) IN IF q = -1 THEN Stay(p) ELSE Go(q)
RevToRuneTest(t, p, o) ==
  LET q == RevFindRune(t, p, o, TRUE) IN IF q = -1 THEN Stay(p) ELSE Go(q)

WhileRuneTest(t, p, o) ==
  LET m == FindRune(t, p, o, FALSE)
      q == IF m = -1 THEN Len(t) ELSE m
  IN Res(q # p, q, <<>>)
RevWhileRuneTest(t, p, o) ==
  LET m == RevFindRune(t, p, o, FALSE)
      q == IF m = -1 THEN 0 ELSE m
  IN Res(q # p, q, <<>>)

FirstOf(n, Test(_)) == LET S == {i \in 1..n : Test(i)} IN IF S = {} THEN 0 ELSE MinOf(S)

IfAnyOf(t, p, ss) ==
  LET i == FirstOf(Len(ss), LAMBDA k : HasAt(t, p, ss[k]))
  IN IF i = 0 THEN Stay(p) ELSE Go(p + Len(ss[i]))
RevIfAnyOf(t, p, ss) ==
  LET i == FirstOf(Len(ss), LAMBDA k : HasBefore(t, p, ss[k]))
  IN IF i = 0 THEN Stay(p) ELSE Go(p - Len(ss[i]))

Within(t, q) == 0 <= q /\ q <= Len(t)

(* Offset n runes behind (before) p, -1 if there are not that many.          *)
RECURSIVE SkipRunes(_, _, _)
SkipRunes(t, p, n) ==
  IF n = 0 THEN p
  ELSE IF p >= Len(t) \/ n > Len(t) - p THEN -1
  ELSE IF n = 1 THEN p + DecodeAt(t, p)[2]
  ELSE LET q == SkipRunes(t, p, Half(n)) IN IF q = -1 THEN -1 ELSE SkipRunes(t, q, n - Half(n))
RECURSIVE RevSkipRunes(_, _, _)
RevSkipRunes(t, p, n) ==
  IF n = 0 THEN p
  ELSE IF p <= 0 \/ n > p THEN -1
  ELSE IF n = 1 THEN p - DecodeBefore(t, p)[2]
  ELSE LET q == RevSkipRunes(t, p, Half(n)) IN IF q = -1 THEN -1 ELSE RevSkipRunes(t, q, n - Half(n))

MoveRunesFrom(t, p, n) ==
  LET q == IF n >= 0 THEN SkipRunes(t, p, n) ELSE RevSkipRunes(t, p, -n)
  IN IF q = -1 THEN Stay(p) ELSE Go(q)

ScanStringAt(t, p, n) ==
  LET q == IF n < 0 THEN -1 ELSE SkipRunes(t, p, n)
  IN IF q = -1 THEN Stay(p) ELSE Res(TRUE, q, SubSeq(t, p+1, q))

ReadRuneAt(t, p) ==
  LET d == DecodeAt(t, p) IN
  IF d[1] = RuneError /\ d[2] <= 1 THEN Stay(p) ELSE Res(TRUE, p + d[2], <<d[1]>>)
RevReadRuneAt(t, p) ==
  LET d == DecodeBefore(t, p) IN
  IF d[1] = RuneError /\ d[2] <= 1 THEN Stay(p) ELSE Res(TRUE, p - d[2], <<d[1]>>)

LineColAt(t, p, tab) ==
  LET nls == {i \in 1..p : t[i] = 10}
      from == IF nls = {} THEN 0 ELSE LastBefore(t, 1, p, <<10>>, FALSE)
      tabs == Cardinality({i \in (from+1)..p : t[i] = 9})
  IN Res(TRUE, p, <<Cardinality(nls) + 1, (p - from - tabs) + tabs * tab + 1>>)

TrueWords  == << <<116,114,117,101>>, <<84,114,117,101>>, <<84,82,85,69>> >>
FalseWords == << <<102,97,108,115,101>>, <<70,97,108,115,101>>, <<70,65,76,83,69>> >>
BoolWordsOf(f, words) ==      \* f: "" or "*" all, "l", "Cc", "U"
  CASE f \in {"", "*"} -> words
    [] f = "l"  -> <<words[1]>>
    [] f = "Cc" -> <<words[2]>>
    [] f = "U"  -> <<words[3]>>
    [] OTHER    -> <<>>
ReadBoolAt(t, p, f) ==
  LET a == IfAnyOf(t, p, BoolWordsOf(f, TrueWords))
      b == IfAnyOf(t, p, BoolWordsOf(f, FalseWords))
  IN IF a.ok THEN Res(TRUE, a.p, <<1>>)
     ELSE IF b.ok THEN Res(TRUE, b.p, <<0>>) ELSE Stay(p)

NumRes(x) == IF x.ok THEN Res(TRUE, x.p, (IF x.neg THEN <<1>> ELSE <<0>>) \o x.d) ELSE Stay(x.p)

(* While: the function calls o.b; its n-th call returns false in any case.   *)
RECURSIVE Apply(_, _, _)
RECURSIVE WhileCalls(_, _, _, _)
WhileCalls(t, p, o, n) ==      \* up to n >= 1 calls: <<goes on, position>>
  IF n = 1 THEN LET r == Apply(t, p, o.b) IN <<r.ok, r.p>>
  ELSE LET a == WhileCalls(t, p, o, Half(n)) IN IF a[1] THEN WhileCalls(t, a[2], o, n - Half(n)) ELSE a

Apply(t, p, o) ==
  CASE o.op = "Move"      -> IF Within(t, p + o.n) THEN Go(p + o.n) ELSE Stay(p)
    [] o.op = "MoveRunes" -> MoveRunesFrom(t, p, o.n)
    [] o.op = "ToMarker"  -> IF Within(t, o.n) THEN Go(o.n) ELSE Stay(p)
    [] o.op = "ToEnd"     -> Go(Len(t))
    [] o.op = "ToStart"   -> Go(0)
    [] o.op = "If"        -> IF HasAt(t, p, o.s) THEN Go(p + Len(o.s)) ELSE Stay(p)
    [] o.op = "IfAny"     -> IfAnyOf(t, p, o.ss)
    [] o.op = "IfFold"    -> IF FoldAt(t, p, o.s) THEN Go(p + Len(o.s)) ELSE Stay(p)
    [] o.op = "IfR"       -> IfRuneTest(t, p, o)
    [] o.op = "To"        -> LET q == FindHasAt(t, p, o.s)
                             IN IF q = -1 THEN Stay(p) ELSE Go(q)
    [] o.op = "ToFold"    -> LET q == FindFoldAt(t, p, o.s)
                             IN IF q = -1 THEN Stay(p) ELSE Go(q)
    [] o.op = "ToR"       -> ToRuneTest(t, p, o)
    [] o.op = "WhileR"    -> WhileRuneTest(t, p, o)
    [] o.op = "While"     -> LET q == WhileCalls(t, p, o, o.n)[2] IN Res(p < q, q, <<>>)
    [] o.op = "RevIf"     -> IF HasBefore(t, p, o.s) THEN Go(p - Len(o.s)) ELSE Stay(p)
    [] o.op = "RevIfAny"  -> RevIfAnyOf(t, p, o.ss)
    [] o.op = "RevIfFold" -> IF FoldBefore(t, p, o.s) THEN Go(p - Len(o.s)) ELSE Stay(p)
    [] o.op = "RevIfR"    -> RevIfRuneTest(t, p, o)
    [] o.op = "RevTo"     -> LET q == FindHasBefore(t, p, o.s)
                             IN IF q = -1 THEN Stay(p) ELSE Go(q)
    [] o.op = "RevToFold" -> LET q == FindFoldBefore(t, p, o.s)
                             IN IF q = -1 THEN Stay(p) ELSE Go(q)
    [] o.op = "RevToR"    -> RevToRuneTest(t, p, o)
    [] o.op = "RevWhileR" -> RevWhileRuneTest(t, p, o)
    [] o.op = "ReadRune"    -> ReadRuneAt(t, p)
    [] o.op = "RevReadRune" -> RevReadRuneAt(t, p)
    [] o.op = "ScanString"  -> ScanStringAt(t, p, o.n)
    [] o.op = "LineCol"     -> LineColAt(t, p, o.n)
    [] o.op \in {"ReadBool", "BoolReader"} -> ReadBoolAt(t, p, o.f)
    [] o.op \in {"ReadInt", "IntReader"}   -> NumRes(IntAt(t, p, o.base, o.bits))
    [] o.op \in {"ReadUint", "UintReader"} -> NumRes(UintAt(t, p, o.base, o.bits))

(* A fold match of U+FFFD also accepts a piece of an encoded rune.  Whether  *)
(* RevToFold looks for the argument there is left open.                      *)
OpenFold(t, p, o, got) ==
  /\ o.op = "RevToFold"
  /\ \E i \in 1..Len(o.s) : HasAt(o.s, i-1, <<239, 191, 189>>)
  /\ IF got.ok = 1 THEN got.p <= p /\ FoldBefore(t, got.p, o.s) ELSE got.p = p

(* Known deviation (known_findings.json, KF1): WhileAnyRune does not move,   *)
(* but returns true, if all of a non-empty tail matches.                     *)
IsKF1(t, p, o) ==
  /\ o.op = "WhileR" /\ o.m = "any" /\ p < Len(t)
  /\ FindRune(t, p, o, FALSE) = -1
KF1Result(p) == Go(p)
=============================================================================
