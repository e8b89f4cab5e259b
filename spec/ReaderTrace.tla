----------------------------- MODULE ReaderTrace -----------------------------
(* Follows recorded reads: a row has expressions (nodes n, roots), texts and *)
(* a history of reads with them.  The state of the specification holds, for  *)
(* every reader of the row, what outlives a read: the strings of the Janus   *)
(* pairs, the basket and the log.                                            *)
EXTENDS Readers, Rows

VARIABLES i, rs

Row    == Data[l]
Fresh(row) == [k \in 1..Len(row.root) |-> State0(Len(row.cells))]
Bit(b) == IF b THEN 1 ELSE 0

Forced(api) == api \in {"UseFunc!", "TraceUseFunc!", "Scope!", "Trace!", "Tokenize!", "Capture!"}
StrAPI(api) == api \in {"TraceUse", "TraceUseFunc", "TraceUseFunc!", "CaptureUse", "Capture", "Capture!"}

(* The read u of the row, in the state s of its reader.                      *)
Perform(row, u, s) ==
  LET E == [t |-> row.tx[u.t], tr |-> row.tr = "basket", N |-> row.n]
      start == [s EXCEPT !.p = u.at, !.ok = TRUE, !.mp = <<>>, !.un = FALSE,
                         !.lg = IF u.rst = 1 THEN <<>> ELSE @]
      r == Read(E, row.root[u.i], start)
  IN IF Forced(u.api) /\ r.ok THEN Failed(E, start, r, OtherErr(row.root[u.i])) ELSE r

(* The cursor is moved to p: the segments that end behind p are gone.        *)
MovedTo(s, p) == [s EXCEPT !.ip = SelectSeq(@, LAMBDA x : x.b <= p), !.pk = DropBehind(@, p)]

Segs(pk) == [k \in 1..Len(pk) |-> <<pk[k].i, pk[k].a, pk[k].b>>]

RECURSIVE Dots(_)
Dots(n) == IF n <= 0 THEN "" ELSE IF n = 1 THEN "." ELSE Dots(Half(n)) \o Dots(n - Half(n))
EntryText(x) == ToString(x.lv) \o Dots(x.lv) \o "@ " \o ToString(x.at) \o " " \o x.i
Preview(t, p, n) == LET q == SkipRunes(t, p, n) IN SubSeq(t, p+1, IF q = -1 THEN Len(t) ELSE q)

(* -------------------------------------------------------------- judgements *)
SameEnd(u, w) == u.ok = Bit(w.ok) /\ u.p = w.p

(* C10 *)
Unmoved(u) == u.ok = 0 => u.p = u.at
(* C14: judged where code and specification agree that the read fails.       *)
GoodError(row, u, w) ==
  /\ u.ok = 0 /\ ~w.ok /\ u.e[1] # -2 /\ ~Forced(u.api) => ErrIs(row.n, w.e, u.e)
  /\ u.e[1] = 1 => u.e[4] = "not able to read " \o u.e[3] \o " at " \o ToString(u.e[2])
(* C16 *)
RECURSIVE SegsFrom(_, _, _)
SegsFrom(s, lo, hi) ==
  IF lo > hi THEN ""
  ELSE IF lo = hi THEN s[lo][1] \o "[" \o ToString(s[lo][2]) \o "-" \o ToString(s[lo][3]) \o ")"
  ELSE SegsFrom(s, lo, Half(lo + hi)) \o ";" \o SegsFrom(s, Half(lo + hi) + 1, hi)
SegsText(s) == SegsFrom(s, 1, Len(s))
GoodPicks(u, w) == SameEnd(u, w) => u.pk = Segs(w.ip) /\ u.bs = SegsText(u.pk)
KnownPicks(u, w) == u.pk = Segs(w.pk) /\ u.bs = SegsText(u.pk)
(* C17 *)
GoodMaps(u, w) ==
  /\ u.ok2 \in {0, 1} =>
        u.ok = u.ok2 /\ u.p = u.p2 /\ (u.e[1] # -2 => u.e[1] = u.e2[1] /\ u.e[2] = u.e2[2])
  /\ SameEnd(u, w) => u.mp = w.mp
(* C18 *)
GoodLog(row, u, w) ==
  SameEnd(u, w) =>
    /\ Len(u.lg) = Len(w.lg)
    /\ \A k \in 1..Len(w.lg) :
         LET x == w.lg[k]
             y == u.lg[k]
         IN y[1] = x.at /\ y[2] = x.i /\ y[3] = x.lv /\ y[4] = x.to /\ ErrIs(row.n, x.e, y[5])
    /\ row.obs = "print" =>
         u.out = [k \in 1..Len(w.lg) |->
                    <<EntryText(w.lg[k]), IF u.pn < 0 THEN <<>> ELSE Preview(row.tx[u.t], w.lg[k].at, u.pn)>>]
(* C29 *)
GoodTold(row, u) ==
  row.tr = "rec" =>
    /\ IF u.told = <<>> THEN u.p = u.at ELSE u.told[Len(u.told)] = u.p
    /\ \A k \in 1..Len(u.told) : Within(row.tx[u.t], u.told[k])
(* C31 *)
GoodText(row, u) ==
    /\ u.ok = u.iok
    /\ u.e[1] # -2 => u.e = u.ie
    /\ u.ok = 1 =>
         LET a == IF u.at <= u.p THEN u.at ELSE u.p      \* a function may also go back
             b == IF u.at <= u.p THEN u.p ELSE u.at
             span == SubSeq(row.tx[u.t], a + 1, b) IN
         /\ u.snc = span
         /\ u.api \in {"TokenizeUse", "Tokenize"} => u.tok = <<a, b>> /\ u.get = span
         /\ StrAPI(u.api) \/ u.api = "Trace" => u.str = span
    /\ u.ok = 0 /\ StrAPI(u.api) => u.str = <<>>

Good(row, u, w) ==
  u.ok # 2 /\      \* nothing panics
  CASE Prop = "C10" -> Unmoved(u)
    [] Prop \in {"C11", "C12"} -> SameEnd(u, w)
    [] Prop = "C13" -> TRUE
    [] Prop = "C14" -> GoodError(row, u, w)
    [] Prop = "C15" -> w.un \/ SameEnd(u, w)
    [] Prop = "C16" -> GoodPicks(u, w)
    [] Prop = "C17" -> GoodMaps(u, w)
    [] Prop = "C18" -> GoodLog(row, u, w)
    [] Prop = "C24" -> u.ok = 0 /\ u.p = u.at
    [] Prop = "C28" -> SameEnd(u, w) /\ (u.e[1] # -2 /\ ~Forced(u.api) => ErrIs(row.n, w.e, u.e))
    [] Prop = "C29" -> GoodTold(row, u)
    [] Prop = "C31" -> GoodText(row, u)

Shown(w) == [ok |-> w.ok, p |-> w.p, e |-> w.e, picks |-> Segs(w.ip), maps |-> w.mp, log |-> w.lg]
Case(row, u) == [text |-> row.tx[u.t], from |-> u.at, api |-> u.api, reader |-> row.what[u.i]]

Step ==
  LET u == Row.runs[i+1]
      old == IF u.mode = 0 THEN Fresh(Row) ELSE rs
      base == IF u.mode = 3 /\ Row.tr = "basket" THEN [old EXCEPT ![u.i] = MovedTo(@, u.at)] ELSE old
      w == Perform(Row, u, base[u.i])
  IN /\ IF Good(Row, u, w) THEN TRUE
        ELSE IF Prop = "C16" /\ KnownPicks(u, w)
             THEN Report("KNOWN", [id |-> IF \E k \in 1..Len(Row.n) : Row.n[k].k = "bodytail" THEN "KF3" ELSE "KF2"])
             ELSE Report("MISMATCH", [step |-> i+1, case |-> Case(Row, u), want |-> Shown(w), got |-> u])
     /\ rs' = [base EXCEPT ![u.i] = w]
     /\ i' = i + 1
     /\ l' = l

NextRow == /\ l + Lanes <= Len(Data)
           /\ l' = l + Lanes /\ i' = 0 /\ rs' = Fresh(Data[l + Lanes])

Init == RowInit /\ i = 0 /\ rs = Fresh(Row)
Next == IF i < Len(Row.runs) THEN Step ELSE NextRow
Spec == Init /\ [][Next]_<<l, i, rs>>

(* C24: descriptions.                                                        *)
WhatOK ==
  i = 0 /\ Prop = "C24" =>
    /\ LET want == [k \in 1..(Len(Row.root) + 1) |-> Bit(\E j \in 1..(k-1) : ShowsInvalid(Row.n, Row.root[j]))]
       IN \/ Row.ainv = want
          \/ Report("MISMATCH", [problem |-> "AnyHasInvalidReader", what |-> Row.what, want |-> want, got |-> Row.ainv])
    /\ \A k \in 1..Len(Row.root) :
      LET shows == ShowsInvalid(Row.n, Row.root[k])
          want == What(Row.n, Row.root[k])
      IN \/ Row.what[k] = want /\ Row.inv[k] = Bit(shows)
         \/ Report("MISMATCH", [want |-> want, invalid |-> shows, got |-> Row.what[k], marked |-> Row.inv[k]])
=============================================================================
