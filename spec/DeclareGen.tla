----------------------------- MODULE DeclareGen -----------------------------
(* Writes all declarations to the file named by OUT.                        *)
EXTENDS Declare, SequencesExt, Json, IOUtils
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({d \in Decls : d.k # "last" \/ d.at <= d.n}))
=============================================================================
