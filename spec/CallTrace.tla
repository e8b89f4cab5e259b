----------------------------- MODULE CallTrace ------------------------------
(* Checks recorded scanner calls against ScannerOps: a row has the text t,   *)
(* the calls o and the list c of <<position, call, reported, position after, *)
(* values...>>.                                                              *)
EXTENDS ScannerOps, Rows

Row == Data[l]

Got(c)    == [ok |-> c[3], p |-> c[4], v |-> SubSeq(c, 5, Len(c))]
Want(r)   == [ok |-> IF r.ok THEN 1 ELSE 0, p |-> r.p, v |-> r.v]

CallOK(row, c) ==
  LET o == row.o[c[2]]
      want == Want(Apply(row.t, c[1], o))
      got  == Got(c)
  IN \/ got = want
     \/ OpenFold(row.t, c[1], o, got)
     \/ IF IsKF1(row.t, c[1], o) /\ got = Want(KF1Result(c[1]))
        THEN Report("KNOWN", [id |-> "KF1"])
        ELSE Report("MISMATCH", [call |-> o, at |-> c[1], want |-> want, got |-> got])

RowOK == \A i \in 1..Len(Row.c) : CallOK(Row, Row.c[i])

Spec == RowInit /\ [][RowNext]_l
=============================================================================
