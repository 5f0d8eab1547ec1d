--------------------------- MODULE FeaturesJudge ---------------------------
(* Judges what compiled: a record is [fs, bad], the features and the items  *)
(* that did not compile (an item "" stands for the library itself).         *)
EXTENDS Features, SequencesExt, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE n
Init == n \in 1..Len(Recs)
Same(i, j) == i.k = j.k /\ i.ty = j.ty
Judge(r) == LET off == Offered(ToSet(r.fs)) IN \A b \in ToSet(r.bad) : IF b.k = "library" \/ \E i \in off : Same(i, b) THEN PrintT(<<"BAD", n, b.ty>>) ELSE TRUE
Next == n > 0 /\ Judge(Recs[n]) /\ n' = 0 - n
Spec == Init /\ [][Next]_n
=============================================================================
