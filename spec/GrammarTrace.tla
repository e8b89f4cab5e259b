---------------------------- MODULE GrammarTrace ----------------------------
(* Checks recorded reads with the bundled grammars (C13, C25, C26, C27).     *)
EXTENDS Rows, Integers, Sequences, FiniteSets, TLC

J == INSTANCE JsonText
M == INSTANCE MxtText
L == INSTANCE LuaText

Row == Data[l]
Bit(b) == IF b THEN 1 ELSE 0
SetOf(s) == {s[k] : k \in 1..Len(s)}

(* Complete: the read succeeded and the cursor is at the end.                *)
Complete(u) == u.ok = 1 /\ u.p = Len(u.t)

(* --------------------------------------------------------------------- C25 *)
JsonBad(u) ==
  LET w == J!Parse(u.t)
      valid == w.p = Len(u.t)
      picks == SelectSeq(u.pk, LAMBDA x : x[1] # "digit")
  IN IF u.ok = 2 THEN "panic"
     ELSE IF valid # Complete(u) THEN "accepts"
     ELSE IF valid /\ u.part = "picks" /\ (SetOf(picks) # w.s \/ Len(picks) # Len(SelectSeq(picks, LAMBDA x : x \in w.s)))
          THEN "picks" ELSE ""
JsonOK(u) == LET b == JsonBad(u) IN
  IF b = "" THEN TRUE
  ELSE Report("MISMATCH", [problem |-> b, text |-> u.t, valid |-> J!IsJson(u.t), ok |-> u.ok, end |-> u.p,
                           missing |-> J!Parse(u.t).s \ SetOf(u.pk), extra |-> SetOf(u.pk) \ J!Parse(u.t).s])

(* --------------------------------------------------------------------- C26 *)
MxtOK(u) ==
  LET w == M!Document(u.t)
      full == w.ok /\ w.p = Len(u.t)
      got == IF Len(u.names) = Len(u.conts) THEN [k \in 1..Len(u.names) |-> <<u.names[k], u.conts[k]>>] ELSE <<>>
      good == /\ u.ok = Bit(w.ok) /\ u.p = w.p
              /\ full => got = w.list
              /\ u.want # <<>> => Complete(u) /\ got = u.want
  IN IF good THEN TRUE
     ELSE Report("MISMATCH", [text |-> u.t, want |-> w, written |-> u.want, ok |-> u.ok, end |-> u.p, names |-> u.names, contents |-> u.conts])

(* --------------------------------------------------------------------- C27 *)
LiteralOK(u, e) ==
  IF (e = -1 /\ u.ok = 0) \/ (e # -1 /\ u.ok = 1 /\ u.p = e) THEN TRUE
  ELSE Report("MISMATCH", [literal |-> u.part, text |-> u.t, want |-> e, ok |-> u.ok, end |-> u.p])
Picked(u, info) == {<<x[2], x[3]>> : x \in {y \in SetOf(u.pk) : y[1] = info}}
(* every construct of the rule is picked once and begins at its first symbol *)
RuleOK(u, Y, rule) ==
  LET picks == SelectSeq(u.pk, LAMBDA x : x[1] = rule)
      want == L!Starts(Y, rule)
  IN Len(picks) = Cardinality(want) /\ {L!SkipTo(u.t, picks[k][2]) : k \in 1..Len(picks)} = want
ProgramOK(u) ==
  LET all == L!AllSymbols(u.t, IF u.part = "script" THEN L!ScriptStart(u.t) ELSE 0)
      Y == L!Symbols(all)
      valid == L!IsProgram(Y)
      bad == IF u.ok = 2 THEN "panic"
             ELSE IF valid /\ ~Complete(u) THEN "is not read"
             ELSE IF ~valid /\ Complete(u) THEN "is read"
             ELSE IF valid /\ u.part \in {"picks", "script"}
                  THEN IF Picked(u, "Name") # L!Ranges(all, "name") THEN "names"
                       ELSE IF Picked(u, "LiteralString") # L!Ranges(all, "str") THEN "strings"
                       ELSE IF Picked(u, "Numeral") # L!Ranges(all, "num") THEN "numerals"
                       ELSE IF Picked(u, "Comment") # L!Ranges(all, "com") THEN "comments"
                       ELSE LET wrong == {r \in L!Rules : ~RuleOK(u, Y, r)}
                            IN IF wrong = {} THEN "" ELSE ToString(wrong)
             ELSE ""
  IN IF bad = "" THEN TRUE
     ELSE Report("MISMATCH", [problem |-> bad, text |-> u.t, ok |-> u.ok, end |-> u.p, picks |-> u.pk])
LuaOK(u) ==
  CASE u.part = "string" -> LiteralOK(u, L!StringEnd(u.t, 0))
    [] u.part = "numeral" -> LiteralOK(u, L!NumeralEnd(u.t, 0))
    [] u.part = "comment" -> LiteralOK(u, L!CommentEnd(u.t, 0))
    [] u.part = "name" -> LET s == L!SymbolAt(u.t, 0) IN LiteralOK(u, IF s.k = "name" THEN s.b ELSE -1)
    [] OTHER -> ProgramOK(u)

(* --------------------------------------------------------------------- C13 *)
(* it returned; a read that fails does not move                              *)
TotalOK(u) ==
  IF u.ok # 2 /\ u.p \in 0..Len(u.t) /\ (u.ok = 0 => u.p = 0) THEN TRUE
  ELSE Report("MISMATCH", [grammar |-> Row.kind, part |-> u.part, text |-> u.t, ok |-> u.ok, end |-> u.p])

RunOK(u) == IF Prop = "C13" THEN TotalOK(u) ELSE
            CASE Row.kind = "json" -> JsonOK(u)
              [] Row.kind = "mxt"  -> MxtOK(u)
              [] Row.kind = "lua"  -> LuaOK(u)
RowOK == \A k \in 1..Len(Row.runs) : RunOK(Row.runs[k])

Spec == RowInit /\ [][RowNext]_l
=============================================================================
