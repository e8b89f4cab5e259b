-------------------------------- MODULE Rules --------------------------------
(* Names of rules and the rules of a grammar struct.                         *)
EXTENDS Integers, Sequences

Letter(x) == (65 <= x /\ x <= 90) \/ (97 <= x /\ x <= 122)
NameByte(x) == Letter(x) \/ (48 <= x /\ x <= 57) \/ x \in {43, 45, 46, 95}

(* The length of the longest name at the begin of t, 0 if there is none.     *)
RECURSIVE NameBytes(_, _, _)
NameBytes(t, lo, hi) ==    \* the end of the name bytes from lo up to hi
  IF lo >= hi THEN hi
  ELSE IF hi = lo + 1 THEN IF NameByte(t[hi]) THEN hi ELSE lo
  ELSE LET mid == (lo + hi) \div 2
           k == NameBytes(t, lo, mid)
       IN IF k < mid THEN k ELSE NameBytes(t, mid, hi)
NameLen(t) == IF t # <<>> /\ Letter(t[1]) THEN NameBytes(t, 1, Len(t)) ELSE 0
IsName(t)  == t # <<>> /\ NameLen(t) = Len(t)

(* The rules of a struct are its exported fields of type Rule, in order.  A  *)
(* rule is [has, tag, name, full]: it has a name tag that is not empty, the  *)
(* bytes of tag and name, and a reader or not.                               *)
BadTags(rules) == {k \in 1..Len(rules) : rules[k].has /\ ~IsName(rules[k].tag)}
NamesAfter(rules) == [k \in 1..Len(rules) |-> IF rules[k].has THEN rules[k].tag ELSE rules[k].name]
BadRules(rules) == {k \in 1..Len(rules) : ~IsName(rules[k].name) \/ ~rules[k].full}
=============================================================================
