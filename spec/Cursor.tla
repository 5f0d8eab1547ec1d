------------------------------- MODULE Cursor -------------------------------
(* What a reader over an input of N bytes is: a position p and the answer to *)
(* the latest operation, <<first, last>> offsets of the bytes it returned    *)
(* or Eof.  A failed read (not a peek) ends the session.                   *)
EXTENDS Integers
CONSTANT N, Sizes
VARIABLES p, ans, over
vars == <<p, ans, over>>
Eof == <<-1, -1>>
Init == p = 0 /\ ans = <<0, 0>> /\ over = FALSE
Read(n) == /\ ~over
           /\ IF p + n <= N THEN p' = p + n /\ ans' = <<p, p + n>> /\ over' = FALSE
              ELSE ans' = Eof /\ over' = TRUE /\ p' = p
Peek(n) == /\ ~over /\ UNCHANGED <<p, over>>
           /\ ans' = IF p + n <= N THEN <<p, p + n>> ELSE Eof
Next == \E n \in Sizes : Read(n) \/ Peek(n)
Spec == Init /\ [][Next]_vars
=============================================================================
