------------------------------- MODULE MCRules -------------------------------
(* Laws of rule names on the specification: all texts over a few bytes.      *)
EXTENDS Rules, TLC, Json

CONSTANT MaxLen
Bytes == {97, 90, 48, 43, 45, 46, 95, 32, 195, 64, 91, 96, 123}

VARIABLE t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E b \in Bytes : t' = Append(t, b)
Spec == Init /\ [][Next]_t

LawC23 ==
  /\ IsName(t) <=> Len(t) > 0 /\ Letter(t[1]) /\ \A k \in 1..Len(t) : NameByte(t[k])
  /\ NameLen(t) > 0 => IsName(SubSeq(t, 1, NameLen(t)))
  /\ \A k \in NameLen(t)+1..Len(t) : ~IsName(SubSeq(t, 1, k))
Emit == PrintT(ToJson(t))
=============================================================================
