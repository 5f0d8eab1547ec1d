-------------------------------- MODULE Life --------------------------------
(* Ownership of the parts of a value being read.  Part i comes to be, later  *)
(* is dropped; parts without a size cannot be told apart and are counted.    *)
(* An event is i (part i is born), -i (it is dropped), Z / -Z (a part without *)
(* size), 0 (the read has returned).                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Z == 1000000
Unborn == [live |-> {}, dead |-> {}, z |-> 0, drops |-> 0, back |-> FALSE, at |-> [live |-> {}, z |-> 0, drops |-> 0], bad |-> {}]
\* the machine: one event
Happens(st, x) ==
  CASE x = 0 -> [st EXCEPT !.back = TRUE, !.at = [live |-> st.live, z |-> st.z, drops |-> st.drops]]
    [] x = Z -> [st EXCEPT !.z = @ + 1]
    [] x = -Z -> [st EXCEPT !.z = @ - 1, !.drops = @ + 1, !.bad = IF st.z <= 0 THEN @ \cup {"double-drop"} ELSE @]
    [] x > 0 -> [st EXCEPT !.live = @ \cup {x}, !.bad = IF x \in st.live \cup st.dead THEN @ \cup {"rebirth"} ELSE @]
    [] OTHER -> [st EXCEPT !.live = @ \ {-x}, !.dead = @ \cup {-x}, !.drops = @ + 1,
                           !.bad = IF -x \in st.live THEN @
                                   ELSE IF -x \in st.dead THEN @ \cup {"double-drop"} ELSE @ \cup {"drop-of-nothing"}]
After0(evs) == FoldLeft(Happens, Unborn, evs)

\* what is wrong with a history: s is how the read ended, own the parts the value has, in its own order;
\* loose: parts may have been replaced on the way (equal keys, defaulted fields)
Wrong(evs, s, own, loose) ==
  LET st == After0(evs)
      mine == {own[i] : i \in 1..Len(own)} \ {Z}
      zs == Cardinality({i \in 1..Len(own) : own[i] = Z})
      end == IF st.live # {} \/ st.z # 0 THEN {"leak"} ELSE {}
  IN st.bad \cup
     (CASE s = "panic" -> {}                                     \* may leak, must not drop twice
        [] s = "err" -> IF ~st.back THEN {"log"} ELSE (IF st.at.live # {} \/ st.at.z # 0 THEN {"leak"} ELSE {}) \cup end
        [] OTHER -> IF ~st.back THEN {"log"}
                    ELSE (IF st.at.live = mine /\ st.at.z = zs /\ Cardinality(mine) + zs = Len(own) THEN {} ELSE {"ownership"})
                         \cup (IF loose \/ st.at.drops = 0 THEN {} ELSE {"early-drop"}) \cup end)
=============================================================================
