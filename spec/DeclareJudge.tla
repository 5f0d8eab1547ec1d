---------------------------- MODULE DeclareJudge ----------------------------
(* Judges what became of the declarations: one record [d, got] per line,    *)
(* got being "accept" or "refuse".                                          *)
EXTENDS Declare, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
Lanes == 16
VARIABLE i
Init == i \in 1..Lanes
Report(n) == LET v == Verdict(Recs[n].d)
             IN IF v \in {"free", Recs[n].got} THEN TRUE ELSE PrintT(<<"BAD", n, v>>)
Next == i <= Len(Recs) /\ Report(i) /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
=============================================================================
