-------------------------------- MODULE MCMxt --------------------------------
(* Reading what was written gives back the chunks (LawC26).  The documents   *)
(* are printed to be replayed.                                               *)
EXTENDS MxtText, TLC, Json
CONSTANTS MaxChunks, MaxLines, Small   \* Small: fewer names, salts and lines
VARIABLES cs, nl

Names    == IF Small THEN {<<97>>, Arrow} ELSE {<<97>>, Arrow, Slashes, <<97, 45, 45>>}
Salts    == IF Small THEN {<<>>, <<88>>, Slashes} ELSE {<<>>, <<88>>, <<88, 89>>, Slashes, Arrow}
Comments == IF Small THEN {<<>>} ELSE {<<>>, <<<<120>>>>, <<<<>>, <<45, 45>>>>}
LineSet  == {<<>>, Slashes, Slashes \o <<88>>, <<97>>} \cup (IF Small THEN {} ELSE {Slashes \o <<32, 97, 32>> \o Arrow, <<47>>})
LineLists == UNION {[1..n -> LineSet] : n \in 0..MaxLines}
NoLines(ls) == ls # <<<<>>>>          \* one empty line is written like no line

ChunkSet == {c \in [name : Names, comment : Comments, salt : Salts, lines : LineLists] : Writable(c) /\ NoLines(c.lines)}
Init == cs = <<>> /\ nl \in {<<10>>, <<13, 10>>}
Next == Len(cs) < MaxChunks /\ (\E c \in ChunkSet : cs' = Append(cs, c)) /\ UNCHANGED nl
Spec == Init /\ [][Next]_<<cs, nl>>

Want == [k \in 1..Len(cs) |-> <<cs[k].name, Content(cs[k], nl)>>]
LawC26 == cs # <<>> =>
  LET t == Write(cs, nl)
      r == Document(t)
  IN r.ok /\ r.p = Len(t) /\ r.list = Want
Emit == cs # <<>> => PrintT(ToJson([t |-> Write(cs, nl), want |-> Want]))
=============================================================================
