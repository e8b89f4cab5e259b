------------------------------- MODULE Derive -------------------------------
(* The leftmost derivations of context-free grammars: every behaviour of     *)
(* mode "derive" derives one text, and every text of a grammar with at most  *)
(* its number of symbols is derived.  In mode "all" every list of terminals  *)
(* is built.                                                                 *)
EXTENDS Integers, Sequences

CONSTANTS Slices,     \* name -> [len, all, rules, start, empty]: bounds of the modes,
                      \* nonterminal -> set of right sides, the start, what can be empty
          Alphabets   \* name -> set of terminals
VARIABLES mode, g,    \* the grammar
          out,        \* the symbols derived so far
          todo        \* what is still to be derived

RECURSIVE MinLen(_)
MinLen(s) == IF s = <<>> THEN 0 ELSE (IF Head(s) \in Slices[g].empty THEN 0 ELSE 1) + MinLen(Tail(s))
(* Terminals in front of todo are moved to out at once.                      *)
RECURSIVE Shift(_, _)
Shift(o, s) == IF s # <<>> /\ Head(s) \notin DOMAIN Slices[g].rules THEN Shift(Append(o, Head(s)), Tail(s)) ELSE <<o, s>>

Init == /\ g \in DOMAIN Slices /\ out = <<>>
        /\ \/ mode = "derive" /\ todo = <<Slices[g].start>>
           \/ mode = "all" /\ todo = <<>> /\ Slices[g].all >= 0
Expand == /\ todo # <<>>
          /\ \E r \in Slices[g].rules[Head(todo)] :
               LET s == r \o Tail(todo)
                   n == Shift(out, s)
               IN /\ Len(out) + MinLen(s) <= Slices[g].len
                  /\ out' = n[1] /\ todo' = n[2]
          /\ UNCHANGED <<mode, g>>
Add == /\ mode = "all" /\ Len(out) < Slices[g].all
       /\ \E x \in Alphabets[g] : out' = Append(out, x)
       /\ UNCHANGED <<mode, g, todo>>
Next == Expand \/ Add
Spec == Init /\ [][Next]_<<mode, g, out, todo>>

Derived == mode = "derive" /\ todo = <<>>
Listed  == mode = "all"
=============================================================================
