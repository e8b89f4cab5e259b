----------------------------- MODULE MCSession ------------------------------
(* Histories of the scanner: TLC's simulator walks through the state machine *)
(* of MCScanner, with every call as an action, and prints the calls it took. *)
(* The histories are replayed on the real code, and SessTrace follows them.  *)
EXTENDS MCScanner

CONSTANTS Calls2Take, Group    \* length of a history; whose calls are preferred
VARIABLES rev, hist
svars == <<text, pos, rev, hist>>

Ops == [C01 |-> {"Move", "MoveRunes", "ToMarker", "ToEnd", "ToStart"},
        C02 |-> {"If", "IfAny", "IfFold", "IfR"},
        C03 |-> {"To", "ToFold", "ToR"},
        C04 |-> {"WhileR", "While"},
        C05 |-> {"RevIf", "RevIfAny", "RevIfFold", "RevIfR"},
        C06 |-> {"RevTo", "RevToFold", "RevToR", "RevWhileR"},
        C07 |-> {"MoveRunes", "ScanString", "ReadRune", "RevReadRune"},
        C08 |-> {"ReadInt", "ReadUint", "IntReader", "UintReader"},
        C09 |-> {"ReadBool", "BoolReader"},
        C29 |-> {"Move", "MoveRunes", "ToMarker", "ToEnd", "ToStart"},
        C30 |-> {"LineCol"}]
AllNames == UNION {Ops[g] : g \in DOMAIN Ops}
ByName == [n \in AllNames |-> {o \in AllCalls : o.op = n}]
AllTexts == Texts(MaxCells)

(* some call: half of the time one of the group                              *)
Pick(h) == LET names == IF RandomElement(1..2) = 1 THEN Ops[Group] ELSE AllNames  \* h: evaluated anew in every state
        IN RandomElement(ByName[RandomElement(names)])

InitS == /\ text \in AllTexts
         /\ rev \in {0, 1}
         /\ pos = rev * Len(text)
         /\ hist = <<>>
NextS == /\ Len(hist) < Calls2Take
         /\ UNCHANGED <<text, rev>>
         /\ \E o \in {Pick(hist)} : pos' = Apply(text, pos, o).p /\ hist' = Append(hist, o)
SpecS == InitS /\ [][NextS]_svars

InText == 0 <= pos /\ pos <= Len(text)
EmitS == Len(hist) = Calls2Take => PrintT(ToJson([t |-> text, rev |-> rev, o |-> hist]))
=============================================================================
