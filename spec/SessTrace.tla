----------------------------- MODULE SessTrace ------------------------------
(* Follows recorded histories of one scanner: each step of a row must be the *)
(* action Apply of the specification, from the position the specification    *)
(* is in.  Rows are walked in lanes; i is the number of steps taken in row l *)
(* and p the position of the specification.                                  *)
EXTENDS ScannerOps, Rows

VARIABLES i, p

Row == Data[l]
StartOf(row) == IF row.rev = 1 THEN Len(row.t) ELSE 0

Bit(b) == IF b THEN 1 ELSE 0
(* Head, Tail, Mark, AtStart and AtEnd agree with the cursor q.              *)
Agrees(row, s, q) ==
  /\ s.m = q /\ s.h = q /\ s.l = Len(row.t) - q /\ s.eq = 1
  /\ s.as = Bit(q = 0) /\ s.ae = Bit(q = Len(row.t))

Last(s) == s[Len(s)]

(* C29: what the tracker has to know after a step from q0 with the record s. *)
Told(row, o, s, q0) ==
  \/ row.track = 0
  \/ /\ s.told = <<>> => s.m = q0
     /\ s.told # <<>> => Last(s.told) = s.m
     /\ \A k \in 1..Len(s.told) : Within(row.t, s.told[k])
     /\ s.ok = 0 /\ o.op \in {"Move", "MoveRunes", "ToMarker"} => s.told = <<>>

Moves == {"Move", "MoveRunes", "ToMarker", "ToStart", "ToEnd"}

(* C01: nothing panics, the cursor is in the text and everything that shows  *)
(* it agrees; the moves report and do exactly what the specification says.   *)
Cursor(row, o, s, want) ==
  /\ s.ok # 2
  /\ Within(row.t, s.m) /\ Agrees(row, s, s.m)
  /\ o.op \in Moves => s.ok = Bit(want.ok) /\ s.m = want.p

(* C02 to C09, C30: the calls of the property do in every history what they  *)
(* do alone.                                                                 *)
Mine == [C02 |-> {"If", "IfAny", "IfFold", "IfR"}, C03 |-> {"To", "ToFold", "ToR"}, C04 |-> {"WhileR", "While"},
         C05 |-> {"RevIf", "RevIfAny", "RevIfFold", "RevIfR"}, C06 |-> {"RevTo", "RevToFold", "RevToR", "RevWhileR"},
         C07 |-> {"MoveRunes", "ScanString", "ReadRune", "RevReadRune"},
         C08 |-> {"ReadInt", "ReadUint", "IntReader", "UintReader"}, C09 |-> {"ReadBool", "BoolReader"}, C30 |-> {"LineCol"}]
AsAlone(row, o, s, q0, want) ==
  LET got == [ok |-> s.ok, p |-> s.m, v |-> s.v]
  IN \/ o.op \notin Mine[Prop]
     \/ got = [ok |-> Bit(want.ok), p |-> want.p, v |-> want.v]
     \/ OpenFold(row.t, q0, o, got)
IsKnown(row, o, s, q0) ==
  /\ Prop = "C04" /\ IsKF1(row.t, q0, o)
  /\ LET k == KF1Result(q0) IN [ok |-> s.ok, p |-> s.m, v |-> s.v] = [ok |-> Bit(k.ok), p |-> k.p, v |-> k.v]

Step ==
  LET s == Row.s[i+1]
      o == Row.o[s.o]
      want == Apply(Row.t, p, o)
      good == CASE Prop = "C29" -> Told(Row, o, s, p)
                [] Prop = "C01" -> Cursor(Row, o, s, want)
                [] OTHER -> AsAlone(Row, o, s, p, want)
  IN /\ IF good THEN TRUE
        ELSE IF IsKnown(Row, o, s, p) THEN Report("KNOWN", [id |-> "KF1"])
        ELSE Report("MISMATCH", [step |-> i+1, call |-> o, from |-> p, want |-> want, got |-> s])
     /\ p' = IF Within(Row.t, s.m) THEN s.m ELSE want.p     \* go on from where the code is
     /\ i' = i + 1
     /\ l' = l

NextRow == /\ l + Lanes <= Len(Data)
           /\ l' = l + Lanes /\ i' = 0 /\ p' = StartOf(Data[l + Lanes])

Init == RowInit /\ i = 0 /\ p = StartOf(Row)
Next == IF i < Len(Row.s) THEN Step ELSE NextRow

FirstOK == i = 0 => \/ Prop # "C01" \/ Agrees(Row, Row.b[1], StartOf(Row))
                    \/ Report("MISMATCH", [step |-> 0, got |-> Row.b[1]])
InText  == Within(Row.t, p)

Spec == Init /\ [][Next]_<<l, i, p>>
=============================================================================
