-------------------------------- MODULE Build --------------------------------
(* How a composite value is read: a stack of unfinished containers, each     *)
(* with the parts it has so far in slots 1..count of storage that is         *)
(* otherwise uninitialised.  A leaf read may succeed, fail or panic at any   *)
(* point.  A failure unwinds the stack: every container drops the parts it   *)
(* counts.  Checked: whatever happens, the history is one Life allows, no    *)
(* uninitialised slot is ever touched, and parts are owned exactly once.     *)
EXTENDS Life, TLC
CONSTANTS Shapes,       \* what is to be read: leaves and containers of shapes
          PanicLeaks    \* containers that are not unwound by a panic (may leak)
VARIABLES shape,        \* the shape being read
          stack,        \* frames [todo: shapes left, slots: values so far, count]
          hold,         \* a part just read that is not stored yet (<<>> or <<value>>)
          next, evs,    \* next identity; the history
          ph            \* "read", "err", "panic", "ok", "end"
vars == <<shape, stack, hold, next, evs, ph>>
Frame(s) == [todo |-> s, slots |-> <<>>, count |-> 0]
\* values: <<i>> is part i, a container is a sequence of values
RECURSIVE Ids(_)
Ids(v) == IF v.leaf THEN <<v.i>> ELSE IF v.sub = <<>> THEN <<>> ELSE Ids(Head(v.sub)) \o Ids([v EXCEPT !.sub = Tail(@)])
Leaf(i) == [leaf |-> TRUE, i |-> i, sub |-> <<>>]
Node(vs) == [leaf |-> FALSE, i |-> 0, sub |-> vs]
RECURSIVE IdsOf(_)
IdsOf(vs) == IF vs = <<>> THEN <<>> ELSE Ids(Head(vs)) \o IdsOf(Tail(vs))
Drops(ids) == [k \in 1..Len(ids) |-> -ids[k]]
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Init == /\ shape \in Shapes /\ stack = <<Frame(shape.sub)>> /\ hold = <<>> /\ next = 1 /\ evs = <<>> /\ ph = "read"
\* the next part is a leaf: it is read
ReadLeaf == /\ ph = "read" /\ hold = <<>> /\ stack # <<>> /\ Top.todo # <<>> /\ Head(Top.todo).leaf
            /\ \/ hold' = <<Leaf(next)>> /\ next' = next + 1 /\ evs' = Append(evs, next) /\ UNCHANGED ph
               \/ ph' \in {"err", "panic"} /\ UNCHANGED <<hold, next, evs>>
            /\ UNCHANGED <<shape, stack>>
\* it is a container: begin it; its length may turn out wrong, too
Open == /\ ph = "read" /\ hold = <<>> /\ stack # <<>> /\ Top.todo # <<>> /\ ~Head(Top.todo).leaf
        /\ \/ stack' = Append(stack, Frame(Head(Top.todo).sub)) /\ UNCHANGED ph
           \/ ph' = "err" /\ UNCHANGED stack
        /\ UNCHANGED <<shape, hold, next, evs>>
\* what was read is stored in the first free slot, then counted
Store == /\ ph = "read" /\ hold # <<>> /\ stack # <<>>
         /\ stack' = [stack EXCEPT ![Len(stack)] = [todo |-> Tail(@.todo), slots |-> Append(@.slots, hold[1]), count |-> @.count + 1]]
         /\ hold' = <<>>
         /\ UNCHANGED <<shape, next, evs, ph>>
\* a complete container is a part of the one around it
Close == /\ ph = "read" /\ hold = <<>> /\ stack # <<>> /\ Top.todo = <<>>
         /\ hold' = <<Node(Top.slots)>> /\ stack' = Pop
         /\ ph' = IF Len(stack) = 1 THEN "ok" ELSE ph
         /\ evs' = IF Len(stack) = 1 THEN Append(evs, 0) ELSE evs
         /\ UNCHANGED <<shape, next>>
\* a failure leaves the innermost container, dropping what it counts
Unwind == /\ ph \in {"err", "panic"} /\ stack # <<>>
          /\ \/ evs' = evs \o Drops(IdsOf(SubSeq(Top.slots, 1, Top.count)))
             \/ ph = "panic" /\ PanicLeaks /\ evs' = evs
          /\ stack' = Pop
          /\ UNCHANGED <<shape, hold, next, ph>>
Fail == /\ ph \in {"err", "panic"} /\ stack = <<>>
        /\ evs' = Append(evs, 0) /\ ph' = ph \o "ed"
        /\ UNCHANGED <<shape, stack, hold, next>>
\* the owner drops the value
Owner == /\ ph = "ok"
         /\ evs' = evs \o Drops(Ids(hold[1])) /\ ph' = "end" /\ UNCHANGED <<shape, stack, hold, next>>
Next == ReadLeaf \/ Open \/ Store \/ Close \/ Unwind \/ Fail \/ Owner
Spec == Init /\ [][Next]_vars

Counted == \A k \in 1..Len(stack) : stack[k].count = Len(stack[k].slots)
\* every part that lives is in exactly one place
Once == ph \in {"read", "ok"} =>
          LET all == IdsOf(hold) \o IdsOf([k \in 1..Len(stack) |-> Node(stack[k].slots)])
          IN Len(all) = Cardinality({all[k] : k \in 1..Len(all)}) /\ {all[k] : k \in 1..Len(all)} = 1..(next - 1)
Sound == CASE ph = "end" -> Wrong(evs, "ok", Ids(hold[1]), FALSE) = {}
           [] ph = "erred" -> Wrong(evs, "err", <<>>, FALSE) = {}
           [] ph = "panicked" -> Wrong(evs, "panic", <<>>, FALSE) = {}
           [] OTHER -> After0(evs).bad = {}
\* parts are owned in the order in which they were read
Ordered == ph = "ok" => LET o == Ids(hold[1]) IN \A k \in 1..Len(o) : o[k] = k
\* every shape of up to three levels and three parts per container
A == [leaf |-> TRUE, sub |-> <<>>]
Box(ss) == [leaf |-> FALSE, sub |-> ss]
S1 == {Box([i \in 1..k |-> A]) : k \in 0..3}
S2 == UNION {{Box(f) : f \in [1..k -> {A} \cup S1]} : k \in 0..3}
S3 == UNION {{Box(f) : f \in [1..k -> {A} \cup {x \in S2 : Len(x.sub) <= 2}]} : k \in 0..2}
=============================================================================
