------------------------------ MODULE SegTrace ------------------------------
(* Checks recorded results of tokens, graphs, sorting and segmentation.  A   *)
(* recorded segment is <<info, from, to>>, a node <<info, from, to, list>>.  *)
EXTENDS Segments, Rows

Row == Data[l]

S(x) == [i |-> x[1], a |-> x[2], b |-> x[3]]
Ss(xs) == [k \in 1..Len(xs) |-> S(xs[k])]
RECURSIVE N(_)
N(x) == [i |-> x[1], a |-> x[2], b |-> x[3], c |-> [k \in 1..Len(x[4]) |-> N(x[4][k])]]
Bit(b) == IF b THEN 1 ELSE 0

(* --------------------------------------------------------------------- C19 *)
(* m: the four markers; the results of both tokens, in that order.           *)
TokensOK ==
  LET m == Row.m
      t == Tok(m[1], m[2])
      u == Tok(m[3], m[4])
      pair(x) == <<x.a, x.b>>
      want == [txt |-> TokText(t), len |-> Length(t),
               rel |-> <<Bit(Before(t, u)), Bit(After(t, u)), Bit(Covers(t, u)), Bit(Clashes(t, u))>>,
               merge |-> TokText(Merge(t, u)),
               split |-> <<TokText(Split(t, u)[1]), TokText(Split(t, u)[2])>>,
               parts |-> <<"i" \o TokText(Split(t, u)[1]), "i" \o TokText(Split(t, u)[2]), "i" \o TokText(t)>>]
  IN \/ Row.got = want
     \/ Report("MISMATCH", [t |-> pair(t), u |-> pair(u), want |-> want, got |-> Row.got])

(* --------------------------------------------------------------------- C20 *)
AccBefore(k) == LET st == SelectSeq(SubSeq(Row.steps, 1, k-1), LAMBDA x : x.ok = 1)
                IN [j \in 1..Len(st) |-> S(st[j].seg)]
StepOK(k) ==
  LET st == Row.steps[k]
      acc == AccBefore(k)
      s == S(st.seg)
      want == Accepts(acc, s)
      after == IF want THEN Append(acc, s) ELSE acc
      prev == IF k = 1 THEN Row.empty ELSE Row.steps[k-1].tree
  IN IF st.ok # Bit(want) THEN Report("MISMATCH", [step |-> k, segment |-> s, accepted |-> acc, want |-> want, got |-> st.ok])
     ELSE IF st.tree = <<>> THEN TRUE       \* the graph is not shown at every step of a large row
     ELSE IF ~want /\ prev # <<>> /\ st.tree # prev THEN Report("MISMATCH", [step |-> k, problem |-> "a refused segment changed the graph", before |-> prev, got |-> st.tree])
     ELSE LET n == N(st.tree)
              leafs == Leafs(n)
              flame == Flame("", 1, n)
          IN IF ~GraphOf(after, n) THEN Report("MISMATCH", [step |-> k, accepted |-> after, got |-> st.tree, problem |-> "not a graph of the accepted segments"])
             ELSE IF n.i # Row.empty[1] THEN Report("MISMATCH", [step |-> k, problem |-> "the root has another info", got |-> n.i])
             ELSE IF Ss(st.leafs) # leafs THEN Report("MISMATCH", [step |-> k, want |-> leafs, got |-> st.leafs, problem |-> "leafs"])
             ELSE IF st.flame # flame THEN Report("MISMATCH", [step |-> k, want |-> flame, got |-> st.flame, problem |-> "flame stack"])
             ELSE TRUE
(* It stops at the first step that is wrong: what follows is not specified.  *)
Wrong(k) == Row.steps[k].ok # Bit(Accepts(AccBefore(k), S(Row.steps[k].seg)))
StepsOK ==
  LET bad  == {k \in 1..Len(Row.steps) : Wrong(k)}
      last == IF bad = {} THEN Len(Row.steps) ELSE CHOOSE k \in bad : \A j \in bad : k <= j
  IN \A k \in 1..last : StepOK(k)
GraphRowOK ==
  /\ StepsOK
  /\ LET final == IF Row.steps = <<>> THEN Row.empty ELSE Row.steps[Len(Row.steps)].tree
     IN /\ IF Row.built = final THEN TRUE ELSE Report("MISMATCH", [problem |-> "BuildGraph", want |-> final, got |-> Row.built])
        /\ IF Row.eq = <<1, Bit(Row.other = final)>> THEN TRUE
           ELSE Report("MISMATCH", [problem |-> "Equal", graph |-> final, other |-> Row.other, got |-> Row.eq])

(* --------------------------------------------------------------------- C21 *)
SortOK ==
  LET want == Sorted(IF Row.by = 1 THEN Row.order ELSE <<>>, Ss(Row.segs))
  IN \/ Ss(Row.got) = want
     \/ Report("MISMATCH", [segs |-> Row.segs, order |-> Row.order, want |-> want, got |-> Row.got])

(* --------------------------------------------------------------------- C22 *)
SegmentateOK ==
  LET t == S(Row.seg)
      list == Ss(Row.segs)
      want == Tiles(t.i, t.a, t.b, list)
  IN \/ IF Divides(t, list) THEN Row.err = 0 /\ Ss(Row.got) = want /\ Row.known = [k \in 1..Len(want) |-> Bit(want[k].i # "")]
        ELSE Row.err = 1
     \/ Report("MISMATCH", [range |-> Row.seg, segs |-> Row.segs, valid |-> Divides(t, list), want |-> want, err |-> Row.err, got |-> Row.got])

RowOK ==
  IF Row.panic = 1 THEN Report("MISMATCH", [problem |-> "panic", row |-> Row])
  ELSE CASE Row.kind = "token" -> TokensOK
         [] Row.kind = "graph" -> GraphRowOK
         [] Row.kind = "sort" -> SortOK
         [] Row.kind = "segmentate" -> SegmentateOK

Spec == RowInit /\ [][RowNext]_l
=============================================================================
