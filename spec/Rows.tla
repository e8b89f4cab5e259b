-------------------------------- MODULE Rows --------------------------------
(* Reading recorded rows (one JSON value per line) and reporting what is     *)
(* wrong with them.  A checking module walks through the rows in lanes, so  *)
(* that TLC can use all of its workers: one state per row.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.ROWS)
Prop == IOEnv.PROP

VARIABLE l

Lanes   == 96
RowInit == l \in {i \in 1..Lanes : i <= Len(Data)}
RowNext == l + Lanes <= Len(Data) /\ l' = l + Lanes

(* Prints one line that check.py picks up: tag, row number and details.      *)
Report(tag, details) == PrintT(tag \o " " \o ToString(l) \o " " \o ToJson(details))
=============================================================================
