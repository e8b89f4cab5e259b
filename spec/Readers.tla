------------------------------- MODULE Readers -------------------------------
(* The meaning of reader expressions.                                        *)
(*                                                                           *)
(* An expression is a graph of nodes E.N; a node is a record with its kind k,*)
(* the list c of its parts (indices of nodes) and what else the kind needs.  *)
(* E.t is the text and E.tr tells whether the scanner is coupled with the    *)
(* basket of the picks.                                                      *)
(*                                                                           *)
(* The state of a read:                                                      *)
(*   ok, p, e   success, cursor, error of a failed read                      *)
(*   ip         segments picked by the committed parse                       *)
(*   pk         segments in the basket: it only knows the cursor, so it      *)
(*              drops the last segments that end behind a position to which  *)
(*              the cursor is set back (see KF2 and KF3)                     *)
(*   mp         calls of the map functions                                   *)
(*   lg, lv     entries of the log and its level                             *)
(*   cl         what the begins of the Janus pairs matched last              *)
(*   un         an end of a Janus pair was read before its begin matched     *)
EXTENDS ScannerOps, TLC

(* Errors: k = 1 a ReadError at position p for node n; the description is    *)
(* the one of the node ("own"), of its first part or its own ("sub"), or not *)
(* specified ("any").  k = 0: an error of another type.                      *)
NoErr            == [k |-> -1, p |-> -1, n |-> 0, m |-> "any"]
ErrAt(p, n, m)   == [k |-> 1, p |-> p, n |-> n, m |-> m]
OtherErr(n)      == [k |-> 0, p |-> -1, n |-> n, m |-> "any"]
EmptyErr         == [k |-> 1, p |-> 0, n |-> 0, m |-> "any"]

State0(cells) == [ok |-> TRUE, p |-> 0, e |-> NoErr, ip |-> <<>>, pk |-> <<>>, mp |-> <<>>,
                  lg |-> <<>>, lv |-> 0, cl |-> [i \in 1..cells |-> <<>>],
                  set |-> {}, un |-> FALSE]

(* Drops the last segments that end behind p; k is the last from lo up to hi *)
(* that does not, lo - 1 if all do.                                          *)
RECURSIVE LastUpTo(_, _, _, _)
LastUpTo(segs, p, lo, hi) ==
  IF lo > hi THEN lo - 1
  ELSE IF segs[hi].b <= p THEN hi
  ELSE IF lo = hi THEN lo - 1
  ELSE LET mid == Half(lo + hi)
           k == LastUpTo(segs, p, mid + 1, hi)
       IN IF k > mid THEN k ELSE LastUpTo(segs, p, lo, mid)
DropBehind(segs, p) == SubSeq(segs, 1, LastUpTo(segs, p, 1, Len(segs)))

(* The cursor goes back to where it was in st; the read so far was r.        *)
BackTo(E, st, r) ==
  [r EXCEPT !.p = st.p, !.ip = st.ip,
            !.pk = IF E.tr THEN DropBehind(r.pk, st.p) ELSE r.pk]
Done(r)           == [r EXCEPT !.ok = TRUE, !.e = NoErr]
Failed(E, st, r, e) == [BackTo(E, st, r) EXCEPT !.ok = FALSE, !.e = e]

(* A leaf that is one scanner call.                                          *)
Leaf(E, n, st, res, m) ==
  IF res.ok THEN Done([st EXCEPT !.p = res.p]) ELSE Failed(E, st, st, ErrAt(st.p, n, m))

InSet(nd, r) == \/ \E i \in 1..Len(nd.rg) : nd.rg[i][1] <= r /\ r <= nd.rg[i][2]
                \/ \E i \in 1..Len(nd.rs) : nd.rs[i] = r
OneRune(E, st, Test(_)) ==
  LET d == DecodeAt(E.t, st.p)
  IN IF d[2] > 0 /\ Test(d[1]) THEN Go(st.p + d[2]) ELSE Stay(st.p)

Deeper(a, b) ==       \* the error to report of a, and then b
  IF b.k = 0 THEN (IF a.k = 1 THEN a ELSE b)
  ELSE IF a.k = 1 /\ a.p > b.p THEN a ELSE b

RECURSIVE Read(_, _, _)

(* The parts lo up to hi of cs (lists and repetitions are read by halves,    *)
(* see ScannerOps).                                                          *)
RECURSIVE AnyFrom(_, _, _, _, _, _)
AnyFrom(E, cs, lo, hi, st, best) ==     \* the error is the best so far
  IF lo = hi THEN LET r == Read(E, cs[lo], st) IN IF r.ok THEN r ELSE [r EXCEPT !.e = Deeper(best, @)]
  ELSE LET a == AnyFrom(E, cs, lo, Half(lo + hi), st, best)
       IN IF a.ok THEN a ELSE AnyFrom(E, cs, Half(lo + hi) + 1, hi, a, a.e)

RECURSIVE SeqFrom(_, _, _, _, _)
SeqFrom(E, cs, lo, hi, st) ==
  IF lo > hi THEN Done(st)
  ELSE IF lo = hi THEN Read(E, cs[lo], st)
  ELSE LET a == SeqFrom(E, cs, lo, Half(lo + hi), st)
       IN IF a.ok THEN SeqFrom(E, cs, Half(lo + hi) + 1, hi, a) ELSE a

RECURSIVE SkipFrom(_, _, _, _, _, _)
SkipFrom(E, skip, cs, lo, hi, st) ==      \* the skipper was already read before cs
  IF lo > hi THEN Done(st)
  ELSE IF lo = hi THEN LET r == Read(E, cs[lo], st) IN IF r.ok THEN Read(E, skip, r) ELSE r
  ELSE LET a == SkipFrom(E, skip, cs, lo, Half(lo + hi), st)
       IN IF a.ok THEN SkipFrom(E, skip, cs, Half(lo + hi) + 1, hi, a) ELSE a

RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(E, n, c, st) ==
  IF n <= 0 THEN Done(st)
  ELSE IF n = 1 THEN Read(E, c, st)
  ELSE LET a == TimesFrom(E, Half(n), c, st) IN IF a.ok THEN TimesFrom(E, n - Half(n), c, a) ELSE a

(* Up to k repetitions: go tells whether the last of them moved the cursor.  *)
RECURSIVE RepeatUpTo(_, _, _, _)
RepeatUpTo(E, c, st, k) ==
  IF k = 1 THEN LET r == Read(E, c, st)
                IN IF ~r.ok \/ r.p = st.p THEN [go |-> FALSE, r |-> Done(r)] ELSE [go |-> TRUE, r |-> r]
  ELSE LET a == RepeatUpTo(E, c, st, Half(k))
       IN IF a.go THEN RepeatUpTo(E, c, a.r, k - Half(k)) ELSE a
Repeat(E, c, st) == RepeatUpTo(E, c, st, 2 * Len(E.t) + 2).r    \* no position comes twice

(* The first position at or behind st.p where c reads: found, the read r and *)
(* the state at in which it was started.  SearchUpTo tries k positions; more *)
(* tells whether there are others.                                           *)
RECURSIVE SearchUpTo(_, _, _, _)
SearchUpTo(E, c, st, k) ==
  IF k = 1 THEN
    LET r == Read(E, c, st)
    IN IF r.ok THEN [found |-> TRUE, more |-> FALSE, at |-> st, r |-> r]
       ELSE IF st.p >= Len(E.t) THEN [found |-> FALSE, more |-> FALSE, at |-> st, r |-> r]
       ELSE [found |-> FALSE, more |-> TRUE, at |-> [r EXCEPT !.p = st.p + DecodeAt(E.t, st.p)[2]], r |-> r]
  ELSE LET a == SearchUpTo(E, c, st, Half(k))
       IN IF a.more THEN SearchUpTo(E, c, a.at, k - Half(k)) ELSE a
Search(E, c, st) == SearchUpTo(E, c, st, Len(E.t) - st.p + 1)

(* The body reads exactly the text from st.p to q.                           *)
BodyRead(E, c, st, r, q, tracked) ==
  LET F == [E EXCEPT !.t = SubSeq(E.t, 1, q), !.tr = E.tr /\ tracked]
  IN Read(F, c, [r EXCEPT !.p = st.p])

Read(E, n, st) ==
  LET nd == E.N[n]
      sub(i) == nd.c[i]
      own == ErrAt(st.p, n, "own")
  IN
  CASE nd.k = "lit"     -> Leaf(E, n, st, Apply(E.t, st.p, [op |-> "If", s |-> nd.s]), "own")
    [] nd.k = "fold"    -> Leaf(E, n, st, Apply(E.t, st.p, [op |-> "IfFold", s |-> nd.s]), "own")
    [] nd.k = "rune"    -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : r = nd.n), "own")
    [] nd.k = "anyrune" -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : \E i \in 1..Len(nd.rs) : nd.rs[i] = r), "own")
    [] nd.k = "between" -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : nd.lo <= r /\ r <= nd.hi), "own")
    [] nd.k = "set"     -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : InSet(nd, r)), "own")
    [] nd.k = "holey"   -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : /\ nd.lo <= r /\ r <= nd.hi
                                                   /\ \A i \in 1..Len(nd.rs) : nd.rs[i] # r), "own")
    [] nd.k = "match"   -> Leaf(E, n, st, OneRune(E, st, LAMBDA r : \E i \in 1..Len(nd.rs) : nd.rs[i] = r), "own")
    [] nd.k = "bool"    -> IF nd.f \in {"", "*", "l", "U", "Cc"}
                           THEN Leaf(E, n, st, ReadBoolAt(E.t, st.p, nd.f), "any")
                           ELSE Failed(E, st, st, OtherErr(n))
    [] nd.k \in {"int", "uint"} ->
         IF nd.base \in {8, 10, 16} /\ nd.bits \in {8, 16, 32, 64}
         THEN Leaf(E, n, st, NumRes(IF nd.k = "int" THEN IntAt(E.t, st.p, nd.base, nd.bits)
                                                    ELSE UintAt(E.t, st.p, nd.base, nd.bits)), "any")
         ELSE Failed(E, st, st, OtherErr(n))
    [] nd.k = "atend"   -> IF st.p = Len(E.t) THEN Done(st) ELSE Failed(E, st, st, own)
    [] nd.k = "invalid" -> Failed(E, st, st, OtherErr(n))

    [] nd.k = "any"     -> LET r == AnyFrom(E, nd.c, 1, Len(nd.c), st, NoErr)
                           IN IF nd.c = <<>> THEN Failed(E, st, st, EmptyErr)
                              ELSE IF r.ok THEN r ELSE Failed(E, st, r, r.e)
    [] nd.k = "seq"     -> LET r == SeqFrom(E, nd.c, 1, Len(nd.c), st)
                           IN IF r.ok THEN r ELSE Failed(E, st, r, r.e)
    [] nd.k = "skipseq" -> LET x == Read(E, sub(1), st)
                               r == IF x.ok THEN SkipFrom(E, sub(1), nd.c, 2, Len(nd.c), x) ELSE x
                           IN IF r.ok THEN r ELSE Failed(E, st, r, r.e)
    [] nd.k = "opt"     -> Done(Read(E, sub(1), st))
    [] nd.k = "many"    -> LET r == Repeat(E, sub(1), st)
                           IN IF r.p > st.p THEN r ELSE Failed(E, st, r, own)
    [] nd.k = "zom"     -> Repeat(E, sub(1), st)
    [] nd.k = "times"   -> LET r == TimesFrom(E, nd.n, sub(1), st)
                           IN IF r.ok THEN r ELSE Failed(E, st, r, r.e)

    [] nd.k = "at"      -> LET r == Read(E, sub(1), st)
                           IN IF r.ok THEN Done(BackTo(E, st, r)) ELSE Failed(E, st, r, r.e)
    [] nd.k = "not"     -> LET r == Read(E, sub(1), st)
                           IN IF r.ok THEN Failed(E, st, r, ErrAt(st.p, n, "sub"))
                              ELSE IF st.p >= Len(E.t) THEN Failed(E, st, r, ErrAt(st.p, n, "sub"))
                              ELSE Done([r EXCEPT !.p = st.p + DecodeAt(E.t, st.p)[2]])
    [] nd.k = "to"      -> LET f == Search(E, sub(1), st)
                           IN IF f.found THEN Done(BackTo(E, f.at, f.r)) ELSE Failed(E, st, f.r, own)
    [] nd.k = "past"    -> LET f == Search(E, sub(1), st)
                           IN IF f.found THEN f.r ELSE Failed(E, st, f.r, own)
    [] nd.k = "body"    ->
         LET f == Search(E, sub(2), st)
             b == BodyRead(E, sub(1), st, BackTo(E, f.at, f.r), f.at.p, TRUE)
         IN IF ~f.found THEN Failed(E, st, f.r, own)
            ELSE IF b.ok /\ b.p = f.at.p THEN Done(b)
            ELSE Failed(E, st, b, own)
    [] nd.k = "bodytail" ->
         LET f == Search(E, sub(2), st)
             b == BodyRead(E, sub(1), st, f.r, f.at.p, FALSE)
         IN IF ~f.found THEN Failed(E, st, f.r, own)
            ELSE IF b.ok /\ b.p = f.at.p THEN Done([b EXCEPT !.p = f.r.p])
            ELSE Failed(E, st, b, own)

    [] nd.k = "jbeg"    -> LET r == Read(E, sub(1), st)
                           IN IF r.ok THEN [r EXCEPT !.cl[nd.n] = SubSeq(E.t, st.p+1, r.p),
                                                     !.set = @ \cup {nd.n}]
                              ELSE Failed(E, st, r, r.e)
    [] nd.k = "jend"    -> Leaf(E, n, [st EXCEPT !.un = @ \/ nd.n \notin st.set],
                                Apply(E.t, st.p, [op |-> "If", s |-> st.cl[nd.n]]), "any")

    [] nd.k \in {"named", "rule"} -> Read(E, sub(1), st)
    [] nd.k = "map"     -> LET r == Read(E, sub(1), st)
                           IN IF r.ok THEN [r EXCEPT !.mp = Append(@, <<nd.n, st.p, r.p>>)]
                              ELSE Failed(E, st, r, r.e)
    [] nd.k = "pick"    -> LET r == Read(E, sub(1), st)
                               s == [i |-> nd.w, a |-> st.p, b |-> r.p]
                           IN IF r.ok THEN [r EXCEPT !.pk = Append(@, s), !.ip = Append(@, s)]
                              ELSE Failed(E, st, r, r.e)
    [] nd.k = "mon"     ->
         LET x == [at |-> st.p, i |-> nd.w, lv |-> st.lv + 1, to |-> 0, e |-> NoErr]
             r == Read(E, sub(1), [st EXCEPT !.lg = Append(@, x), !.lv = @ + 1])
         IN [r EXCEPT !.lg[Len(st.lg) + 1] = [x EXCEPT !.to = r.p, !.e = r.e], !.lv = st.lv]

    (* A function that moves n bytes, if it can, then reads with its part, if *)
    (* it has one, and at last fails with a ReadError (f = "read"), another   *)
    (* error (f = "other") or not at all; Wrap (wrap) or the scanner that uses *)
    (* it (user, a Reader that does not set itself back) restores the cursor. *)
    [] nd.k \in {"wrap", "user"} ->
         LET q == IF Within(E.t, st.p + nd.n) THEN st.p + nd.n ELSE st.p
             x == [st EXCEPT !.p = q]
             r == IF nd.c = <<>> THEN Done(x) ELSE Read(E, sub(1), x)
         IN IF ~r.ok THEN Failed(E, st, r, r.e)
            ELSE IF nd.f = "read" THEN Failed(E, st, r, ErrAt(r.p, n, "own"))
            ELSE IF nd.f = "other" THEN Failed(E, st, r, OtherErr(n))
            ELSE r

(* ------------------------------------------------------------ descriptions *)
RECURSIVE What(_, _)
RECURSIVE JoinWhat(_, _, _, _)
JoinWhat(N, cs, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN What(N, cs[lo])
  ELSE JoinWhat(N, cs, lo, Half(lo + hi)) \o " " \o JoinWhat(N, cs, Half(lo + hi) + 1, hi)
RECURSIVE RangeWhat(_, _, _)
RangeWhat(qs, lo, hi) ==
  IF lo > hi THEN "" ELSE IF lo = hi THEN " " \o qs[lo]
  ELSE RangeWhat(qs, lo, Half(lo + hi)) \o RangeWhat(qs, Half(lo + hi) + 1, hi)

(* q holds the quoted text of leafs: a Go string, rune or pair of runes.     *)
What(N, n) ==
  LET nd == N[n]
      one == What(N, nd.c[1])
  IN
  CASE nd.k \in {"lit", "rune"} -> nd.q
    [] nd.k = "fold"    -> "~" \o nd.q
    [] nd.k = "anyrune" -> "[" \o nd.q \o "]"
    [] nd.k = "between" -> IF nd.lo = nd.hi THEN nd.q ELSE "<" \o nd.q \o ">"
    [] nd.k = "set"     -> "[<" \o RangeWhat(nd.qs, 1, Len(nd.qs)) \o (IF nd.rs = <<>> THEN "" ELSE " " \o nd.q) \o " >]"
    [] nd.k = "holey"   -> "(" \o (IF nd.lo = nd.hi THEN nd.w ELSE "<" \o nd.w \o ">") \o " - " \o nd.q \o ")"
    [] nd.k \in {"match", "wrap", "user", "named", "rule"} -> nd.w
    [] nd.k = "bool"    -> "bool{" \o nd.q \o "}"
    [] nd.k \in {"int", "uint"} -> nd.k \o "{" \o ToString(nd.base) \o "," \o ToString(nd.bits) \o "}"
    [] nd.k = "atend"   -> "@END"
    [] nd.k = "invalid" -> nd.q
    [] nd.k = "any"     -> "[ " \o JoinWhat(N, nd.c, 1, Len(nd.c)) \o " ]"
    [] nd.k = "seq"     -> JoinWhat(N, nd.c, 1, Len(nd.c))
    [] nd.k = "skipseq" -> "(>" \o one \o ">" \o (IF Len(nd.c) = 1 THEN "" ELSE " " \o JoinWhat(N, nd.c, 2, Len(nd.c))) \o " )"
    [] nd.k = "opt"     -> "?" \o one
    [] nd.k = "many"    -> "+" \o one
    [] nd.k = "zom"     -> "*" \o one
    [] nd.k = "times"   -> ToString(nd.n) \o "*" \o one
    [] nd.k = "at"      -> "@" \o one
    [] nd.k = "not"     -> "!" \o one
    [] nd.k = "to"      -> "->" \o one
    [] nd.k = "past"    -> "-->" \o one
    [] nd.k = "body"     -> "-(" \o one \o "-" \o What(N, nd.c[2]) \o ")-"
    [] nd.k = "bodytail" -> "-(" \o one \o "-+" \o What(N, nd.c[2]) \o ")-"
    [] nd.k = "jbeg"    -> "$" \o nd.w \o "<" \o one
    [] nd.k = "jend"    -> "$" \o nd.w
    [] nd.k \in {"map", "pick", "mon"} -> one

(* An invalid reader can be seen in the description of n.                    *)
RECURSIVE ShowsInvalid(_, _)
ShowsInvalid(N, n) ==
  LET nd == N[n] IN
  \/ nd.k = "invalid"
  \/ nd.k \notin {"named", "rule", "wrap", "user"} /\ \E i \in 1..Len(nd.c) : ShowsInvalid(N, nd.c[i])

(* A recorded error <<k, p, what>> is the error e.                           *)
ErrIs(N, e, rec) ==
  /\ rec[1] = e.k
  /\ e.k = 1 =>
       /\ rec[2] = e.p
       /\ CASE e.m = "own" -> rec[3] = What(N, e.n)
            [] e.m = "sub" -> rec[3] \in {What(N, e.n), What(N, N[e.n].c[1])}
            [] OTHER -> TRUE
=============================================================================
