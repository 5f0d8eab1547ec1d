-------------------------------- MODULE Ring --------------------------------
(* How a stream reader does it: a ring buffer that starts with capacity C0   *)
(* (0: unbuffered), filled by a source that returns as many bytes as it      *)
(* pleases, and bypassed by big reads.  Input byte i (0..N-1) is its offset. *)
(* Checked: whatever the source does, this is a Cursor; no part of the input *)
(* is lost, doubled or reordered; the source is never asked for 0 bytes      *)
(* (which would look like the end); free and occupied parts never overlap;   *)
(* unbuffered reads never take more than was read or peeked at.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,          \* length of the input
          C0,         \* capacity of the ring
          Sizes,      \* sizes of operations
          Slack,      \* growing may reserve up to that much more
          Record      \* keep the history (to make test scripts)
VARIABLES buf, pos, len, cap,     \* the ring
          src,                    \* bytes taken from the source
          del,                    \* bytes delivered (the cursor)
          op,                     \* what is being done: [k, n] and the phase
          ans, over,              \* latest answer; a read has failed
          need,                   \* furthest byte read or peeked at
          hist                    \* [ops, steps]
vars == <<buf, pos, len, cap, src, del, op, ans, over, need, hist>>
Buffering == C0 > 0
Idle == [k |-> "idle", n |-> 0, ph |-> ""]
Eof == <<-1, -1>>
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
Range(a, b) == {i \in 0..(cap - 1) : a <= i /\ i < b}          \* offsets a..b-1

\* the occupied part as up to two ranges <<from, to>>
Occupied == IF pos + len <= cap THEN << <<pos, pos + len>> >>
            ELSE << <<pos, cap>>, <<0, len - (cap - pos)>> >>
\* the first range of the empty part, at most max long
Empty(p, l, c, max) ==
  LET r == IF p = 0 THEN <<l, c>>
           ELSE IF p + l >= c THEN <<l - (c - p), p>>
           ELSE <<p + l, c>>
  IN <<r[1], MinOf(r[2], r[1] + max)>>
At(i) == buf[(pos + i) % cap]
\* the first n bytes of the ring, following its ranges
Front(n) == LET a == Occupied[1]
                la == a[2] - a[1]
            IN [i \in 1..n |-> IF i <= la THEN buf[a[1] + i - 1] ELSE buf[Occupied[2][1] + i - 1 - la]]
Consume(n) == /\ len' = len - n
              /\ pos' = IF len - n = 0 THEN 0 ELSE (pos + n) % cap
\* ranges of the input that a sequence of delivered bytes is
IsPiece(s, from) == \A i \in 1..Len(s) : s[i] = from + i - 1

Init == /\ buf = [i \in 0..(C0 - 1) |-> -1] /\ pos = 0 /\ len = 0 /\ cap = C0
        /\ src = 0 /\ del = 0 /\ op = Idle /\ ans = <<0, 0>> /\ over = FALSE /\ need = 0
        /\ hist = [ops |-> "", steps |-> ""]
Log(ops, steps) == hist' = IF Record THEN [ops |-> hist.ops \o ops, steps |-> hist.steps \o steps] ELSE hist

\* an operation begins
Begin(k, n) ==
  /\ op = Idle /\ ~over
  /\ op' = [k |-> k, n |-> n, ph |-> IF k = "read" THEN (IF len >= n THEN "take" ELSE IF Buffering /\ n < cap THEN "fill" ELSE "take")
                                     ELSE (IF n > len THEN "grow" ELSE "show")]
  /\ need' = MaxOf(need, MinOf(del + n, N))
  /\ Log(k \o ":" \o ToString(n) \o " ", "")
  /\ UNCHANGED <<buf, pos, len, cap, src, del, ans, over>>

\* the source stores k bytes into the free range r
Supply(r, k) == /\ buf' = [i \in DOMAIN buf |-> IF i >= r[1] /\ i < r[1] + k THEN src + i - r[1] ELSE buf[i]]
                /\ src' = src + k
                /\ len' = len + k
Fill ==
  /\ op.k = "read" /\ op.ph = "fill"
  /\ LET r == Empty(pos, len, cap, cap - len)
     IN \E k \in 0..(r[2] - r[1]) :
          /\ k = 0 => src = N                    \* the source has 0 bytes only at its end
          /\ src + k <= N
          /\ Supply(r, k)
          /\ Log("", ToString(k) \o " ")
          /\ IF k = 0
             THEN IF len < op.n THEN op' = Idle /\ ans' = Eof /\ over' = TRUE
                  ELSE op' = [op EXCEPT !.ph = "take"] /\ UNCHANGED <<ans, over>>
             ELSE /\ op' = [op EXCEPT !.ph = IF len + k >= op.n \/ len + k >= cap THEN "take" ELSE "fill"]
                  /\ UNCHANGED <<ans, over>>
  /\ UNCHANGED <<pos, cap, del, need>>
\* what the ring has goes out, the rest comes directly from the source
Takes ==
  /\ op.k = "read" /\ op.ph = "take"
  /\ LET m == MinOf(len, op.n)
         rest == op.n - m
     IN /\ IF m > 0 THEN Assert(IsPiece(Front(m), del), <<"wrong bytes", Front(m), del>>) /\ Consume(m)
           ELSE UNCHANGED <<pos, len>>
        /\ rest > 0 => src = del + m
        /\ IF src + rest <= N
           THEN src' = src + rest /\ del' = del + op.n /\ ans' = <<del, del + op.n>> /\ over' = FALSE
           ELSE src' = N /\ ans' = Eof /\ over' = TRUE /\ del' = del
        /\ Log("", IF rest > 0 THEN "all " ELSE "")
  /\ op' = Idle
  /\ UNCHANGED <<buf, cap, need>>
\* a peek makes room for what is missing (or fills up the ring) and fetches
Grow ==
  /\ op.k = "peek" /\ op.ph = "grow"
  /\ LET chunk == IF Buffering THEN MaxOf(op.n - len, cap - len) ELSE op.n - len
     IN IF cap >= len + chunk
        THEN UNCHANGED <<buf, pos, cap>>
        ELSE \E s \in 0..Slack :
               /\ cap' = len + chunk + s
               /\ pos' = 0
               /\ buf' = [i \in 0..(len + chunk + s - 1) |-> IF i < len THEN Front(len)[i + 1] ELSE -1]
  /\ op' = [op EXCEPT !.ph = "fetch"]
  /\ UNCHANGED <<len, src, del, ans, over, need, hist>>
Fetch ==
  /\ op.k = "peek" /\ op.ph = "fetch"
  /\ LET chunk == IF Buffering THEN MaxOf(op.n - len, cap - len) ELSE op.n - len
         r == Empty(pos, len, cap, chunk)
     IN \E k \in 0..(r[2] - r[1]) :
          /\ k = 0 => src = N
          /\ src + k <= N
          /\ Supply(r, k)
          /\ Log("", ToString(k) \o " ")
          /\ IF k = 0 THEN op' = Idle /\ ans' = Eof
             ELSE op' = [op EXCEPT !.ph = IF len + k >= op.n THEN "show" ELSE "grow"] /\ ans' = ans
  /\ UNCHANGED <<pos, cap, del, over, need>>
Show ==
  /\ op.k = "peek" /\ op.ph = "show"
  /\ op.n > 0 => Assert(IsPiece(Front(op.n), del), <<"wrong bytes", Front(op.n), del>>)
  /\ ans' = <<del, del + op.n>>
  /\ op' = Idle
  /\ UNCHANGED <<buf, pos, len, cap, src, del, over, need, hist>>
Next == (\E n \in Sizes, k \in {"read", "peek"} : Begin(k, n)) \/ Fill \/ Takes \/ Grow \/ Fetch \/ Show
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
TypeOk == len <= cap /\ (pos < cap \/ pos = 0) /\ DOMAIN buf = 0..(cap - 1)
\* after a failed read what was taken directly is gone
Content == over \/ (\A i \in 0..(len - 1) : At(i) = del + i)
Source == over \/ src = del + len
NotAskedForNothing ==
  /\ op.ph = "fill" => LET r == Empty(pos, len, cap, cap - len) IN r[2] > r[1]
  /\ op.ph = "fetch" => LET r == Empty(pos, len, cap, IF Buffering THEN MaxOf(op.n - len, cap - len) ELSE op.n - len) IN r[2] > r[1]
Disjoint ==
  op.ph \in {"fill", "fetch"} =>
    LET r == Empty(pos, len, cap, cap - len)
        o == UNION {{i \in 0..(cap - 1) : i >= Occupied[j][1] /\ i < Occupied[j][2]} : j \in 1..Len(Occupied)}
    IN Cardinality(o) = len /\ r[2] <= cap /\ \A i \in Range(r[1], r[2]) : i \notin o
NoOverRead == Buffering \/ src <= need
Cur == INSTANCE Cursor WITH p <- del, ans <- ans, over <- over
IsCursor == Cur!Spec

\* ------------------------------------------------------------------ test scripts
\* one script for every way the ring can look at the beginning of an operation
View == <<pos, len, cap, op, ans = Eof, over, IF src = N THEN 1 ELSE 0>>
Emit == IF op.ph \in {"take", "show"} \/ over THEN PrintT("SCRIPT " \o hist.ops \o "| " \o hist.steps) ELSE TRUE
=============================================================================
