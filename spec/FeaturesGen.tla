---------------------------- MODULE FeaturesGen ----------------------------
(* Writes the configurations, with what each offers, to the file OUT.       *)
EXTENDS Features, SequencesExt, Json, IOUtils
Deep == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
Shown(i) == [k |-> i.k, ty |-> i.ty]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({[fs |-> SetToSeq(c), items |-> SetToSeq({Shown(i) : i \in Offered(c)})] : c \in Configs(Deep)}))
=============================================================================
