------------------------------ MODULE RuleTrace ------------------------------
(* Checks recorded results of rule names and grammar structs (C23).          *)
EXTENDS Rules, Rows, FiniteSets

Row == Data[l]
Bit(b) == IF b THEN 1 ELSE 0

NameOK ==
  LET n == NameLen(Row.t)
      want == <<Bit(~IsName(Row.t)), Bit(n > 0), n>>
      got  == <<Row.err, Row.ok, Row.p>>
  IN \/ got = want
     \/ Report("MISMATCH", [text |-> Row.t, want |-> want, got |-> got])

RuleFields == SelectSeq(Row.fields, LAMBDA f : f.kind = "rule")
Rules(names) ==
  [k \in 1..Len(RuleFields) |->
     [has |-> RuleFields[k].has = 1 /\ RuleFields[k].tag # "", tag |-> Row.tagb[k],
      name |-> names[k], full |-> Row.what[k] # "nil"]]
First(S) == CHOOSE k \in S : \A j \in S : k <= j

GramOK ==
  LET rules == Rules(Row.preb)
      bad == BadTags(rules)
      after == Rules(Row.nameb)
      setOK == IF bad = {} THEN Row.set = <<>> /\ Row.nameb = NamesAfter(rules)
               ELSE Len(Row.set) = 1 /\ Row.first = RuleFields[First(bad)].name
      collOK == Row.coll = [k \in 1..Len(rules) |-> k]
      chkOK == Row.chk = Bit(BadRules(after) # {})
      linesOK == (\A k \in 1..Len(rules) : after[k].full)
                    => Row.lines = [k \in 1..Len(rules) |-> Row.names[k] \o ": " \o Row.what[k]]
      mustOK == Row.must = <<Bit(bad # {}), Bit(BadRules(after) # {})>>
  IN IF setOK /\ collOK /\ chkOK /\ linesOK /\ mustOK THEN TRUE
     ELSE Report("MISMATCH", [fields |-> Row.fields, before |-> Row.pre, after |-> Row.names, set |-> setOK,
                              error |-> Row.set, collect |-> collOK, check |-> chkOK, lines |-> linesOK, must |-> mustOK])

(* A bundled grammar: every rule has the name of its tag and a reader.       *)
OwnOK ==
  LET all == [k \in 1..Len(Row.tags) |-> k]
  IN IF /\ Row.names = Row.tags /\ \A k \in 1..Len(Row.tags) : IsName(Row.tags[k])
        /\ Row.coll = all /\ Row.gram = all /\ Row.chk = 0 /\ Row.lines = Row.text
     THEN TRUE ELSE Report("MISMATCH", [grammar |-> Row.g, tags |-> Row.tags, names |-> Row.names, collected |-> Row.coll, rules |-> Row.gram, check |-> Row.chk])

RowOK ==
  IF Row.panic = 1 THEN Report("MISMATCH", [problem |-> "panic", row |-> Row])
  ELSE IF Row.kind = "name" THEN NameOK ELSE IF Row.kind = "own" THEN OwnOK ELSE GramOK

Spec == RowInit /\ [][RowNext]_l
=============================================================================
