------------------------------- MODULE Session -------------------------------
(* Custom reading and writing code: a reader is a cursor over its input, a    *)
(* writer appends to its output.                                              *)
(*                                                                            *)
(* A reading session is in state [p, h, e, live]: the position, how far was   *)
(* looked ahead, the byte order, and whether the position is still known (it  *)
(* is not after a failed operation other than a peek).  Operations op.o:      *)
(*   rd t     read a value of schema t, whatever method does it               *)
(*   pk t     peek at one                                                     *)
(*   rb, pb n read / peek at n raw bytes       sk n  skip n bytes             *)
(*   bb n     borrow n bytes from the input, if the reader can                *)
(*   bf n     borrow n bytes from the reader   bu    borrow all that is left  *)
(*   cr n     can n bytes be read? 2 unknown, 1 yes, 0 no                     *)
(*   se e     change the byte order            ge    ask for it (1: big)      *)
(* An outcome is [s, c, v]: ok, err or none, the class of the error, a value. *)
EXTENDS Codec

Start(e) == [p |-> 0, h |-> 0, e |-> e, live |-> TRUE]
Lost(st) == [st EXCEPT !.live = FALSE]
To(st, p) == [st EXCEPT !.p = p, !.h = Max2(@, p)]
\* what the operation has to find at the cursor
Wanted(op, st, inp, cx) ==
  CASE op.o \in {"rd", "pk", "rb", "pb", "sk", "bb", "bf"} -> Dec(op.t, inp, st.p, cx, <<>>)
    [] op.o = "bu" -> ROk(Take(inp, st.p, Len(inp) - st.p), Len(inp))
    [] OTHER -> ROk(0, st.p)
Peeks == {"pk", "pb"}
Fail(f, st) == [f |-> f, st |-> st]
If(c, f) == IF c THEN {} ELSE {f}

\* one operation: in what respects is the outcome o wrong, and what is the next state
ReadStep(op, o, st, inp, cx0, borrows) ==
  LET cx == [cx0 EXCEPT !.e = st.e]
      R == Wanted(op, st, inp, cx)
      left == Len(inp) - st.p
  IN CASE op.o = "cr" -> Fail(If(o.s = "ok" /\ o.v \in {2, IF op.n <= left THEN 1 ELSE 0}, "query"), st)
       [] op.o = "se" -> Fail(If(o.s = "ok", "order"), [st EXCEPT !.e = op.e])
       [] op.o = "ge" -> Fail(If(o.s = "ok" /\ o.v = (IF st.e = "be" THEN 1 ELSE 0), "order"), st)
       [] op.o \in {"bb", "bf", "bu"} /\ o.s = "none" -> Fail({}, st)
       [] R.s = "any" -> Fail({}, Lost(st))
       [] op.o \in Peeks /\ o.s = "ok" ->
            Fail(If(R.s = "ok", "peek-accepts") \cup If(R.s # "ok" \/ o.v = R.v, "peek-val"), [st EXCEPT !.h = Max2(@, R.p)])
       [] op.o \in Peeks ->
            Fail(If(R.s = "err", "peek-rejects") \cup If(o.c \in Classes(R, inp), "peek-class"), [st EXCEPT !.h = Len(inp)])
       [] o.s = "ok" ->
            IF R.s # "ok" THEN Fail({"step-accepts"}, Lost(st))
            ELSE Fail(If(op.o = "sk" \/ (op.o # "rd" /\ o.v = R.v)
                         \/ (op.o = "rd" /\ Valid(op.t, o.v) /\ Norm(op.t, o.v) = R.v), "step-val")
                      \cup (IF op.o \in {"bb", "bu"}
                            THEN If(borrows, "borrow-mode") \cup If(~borrows \/ Len(o.v) = 0 \/ o.off = st.p, "borrow-outside") ELSE {}),
                      IF R.amb THEN Lost(st) ELSE [To(st, R.p) EXCEPT !.h = Max2(@, R.h)])
       [] o.s = "err" -> Fail(If(R.s = "err", "step-rejects") \cup If(R.s # "err" \/ o.c \in Classes(R, inp), "step-class"), Lost(st))
       [] OTHER -> Fail({"panic"}, Lost(st))

RECURSIVE ReadSteps(_, _, _, _, _, _, _)
ReadSteps(ops, run, i, st, inp, cx, borrows) ==
  IF i > Len(ops) \/ ~st.live THEN Fail({}, st)
  ELSE IF i > Len(run.outs) THEN Fail({IF run.s = "panic" THEN "panic" ELSE "step-rejects"}, Lost(st))
  ELSE LET x == ReadStep(ops[i], run.outs[i], st, inp, cx, borrows)
       IN IF x.f # {} THEN Fail(x.f, Lost(st))
          ELSE ReadSteps(ops, run, i + 1, x.st, inp, cx, borrows)

InS(m, ms) == \E i \in 1..Len(ms) : ms[i] = m
\* a whole reading session in one mode
RunFails(rec, run) ==
  LET zc == InS("zc", run.ms)
      x == ReadSteps(rec.ops, run, 1, Start(rec.e), rec.in, [e |-> rec.e, zc |-> zc, al |-> rec.al], zc)
  IN x.f \cup (IF run.s = "panic" THEN {"panic"} ELSE {})
     \* at the end of a session without failures the reported length is the position,
     \* and an unbuffered stream has given what was read or looked at
     \cup (IF x.f = {} /\ x.st.live
           THEN If(run.s = "ok", "step-result")
                \cup (IF InS("su", run.ms) THEN If(run.n = x.st.h, "step-taken")
                      ELSE IF run.n < 0 THEN {} ELSE If(run.n = x.st.p, "step-length"))
           ELSE {})
RsFails(rec) == UNION {RunFails(rec, rec.runs[i]) : i \in 1..Len(rec.runs)}

\* ---------------------------------------------------------------- long inputs
(* The byte at offset i is i modulo PatMod; what was read is given as maximal *)
(* runs <<first byte, length>> of bytes counting up modulo PatMod, so that it *)
(* is the right piece iff it is one run that starts with the right byte.      *)
PatMod == 127
Piece(p, n) == IF n = 0 THEN <<>> ELSE << <<p % PatMod, n>> >>
\* op: rb (any reading of n bytes), pb (any peeking), sk, ue (read until the end)
LongStep(op, o, p, N) ==
  LET n == IF op.o = "ue" THEN N - p ELSE op.n
      fits == SatAdd(p, n) <= N
  IN CASE op.o = "pb" -> Fail(IF fits THEN If(o.s = "ok" /\ o.v = Piece(p, n), "peek-val")
                              ELSE If(o.s = "err" /\ o.c = "eof", "peek-class"), p)
       [] o.s = "ok" -> Fail(If(fits /\ (op.o = "sk" \/ o.v = Piece(p, n)), "step-val"), p + n)
       [] OTHER -> Fail(If(~fits, "step-rejects") \cup If(o.s = "err" /\ o.c \in {"eof"} \cup (IF n >= BIG THEN Overflowing ELSE {}), "step-class"), -1)
RECURSIVE LongSteps(_, _, _, _, _)
LongSteps(ops, run, i, p, N) ==
  IF p < 0 \/ i > Len(ops) THEN Fail({}, p)
  ELSE IF i > Len(run.outs) THEN Fail({"step-rejects"}, -1)
  ELSE LET x == LongStep(ops[i], run.outs[i], p, N)
       IN IF x.f # {} THEN Fail(x.f, -1) ELSE LongSteps(ops, run, i + 1, x.st, N)
LongFails(rec) ==
  UNION {LET run == rec.runs[i]
             x == LongSteps(rec.ops, run, 1, 0, rec.n)
             peeks == \E j \in 1..Len(rec.ops) : rec.ops[j].o = "pb"
         IN x.f \cup (IF run.s = "panic" THEN {"panic"} ELSE {})
            \cup (IF x.f = {} /\ x.st >= 0
                  THEN If(run.s = "ok", "step-result")
                       \cup If(run.n < 0 \/ (InS("su", run.ms) /\ peeks) \/ run.n = x.st, "step-length") ELSE {})
         : i \in 1..Len(rec.runs)}

\* ------------------------------------------------------------------- writing
(* rec.ops: what was written, one [t, v] per operation; a run is [s, c, b].   *)
RECURSIVE Cat(_, _, _, _)
Cat(ops, e, i, acc) == IF i > Len(ops) THEN acc
                       ELSE Cat(ops, e, i + 1, ECat(acc, Enc(ops[i].t, ops[i].v, e, <<>>)))
\* the queries (operations with q) in order, against the room there was
QueryFails(rec, run) ==
  LET E(i) == Cat(SubSeq(rec.ops, 1, i), rec.e, 1, EOk(<<>>))
      qs == SelectSeq([i \in 1..Len(rec.ops) |-> i], LAMBDA i : rec.ops[i].q)
  IN IF Len(qs) # Len(run.q) THEN {"query"}
     ELSE UNION {LET have == run.room - Len(E(qs[j]).b)
                 IN If(run.q[j][2] = 2 \/ (run.room # -1 /\ run.q[j][2] = (IF run.q[j][1] <= have THEN 1 ELSE 0)), "query")
                 : j \in 1..Len(qs)}
\* reading the operations' values back, in order
RECURSIVE Back(_, _, _, _, _)
Back(ops, b, e, i, p) ==
  IF i > Len(ops) THEN If(p = Len(b), "back")
  ELSE LET R == Dec(ops[i].t, b, p, [e |-> e, zc |-> TRUE, al |-> 0], <<>>)
       IN IF R.s = "any" THEN {}
          ELSE IF R.s = "ok" /\ R.v = Norm(ops[i].t, Expect(ops[i].t, ops[i].v)) THEN Back(ops, b, e, i + 1, R.p)
          ELSE {"back"}
WsFails(rec) ==
  LET E == Cat(rec.ops, rec.e, 1, EOk(<<>>))
  IN UNION {LET run == rec.runs[i]
            IN If(run.s # "panic", "panic")
               \cup If(E.s # "ok" \/ run.s = "panic" \/ (run.s = "ok" /\ run.b = E.b), "appends")
               \cup (IF run.s = "ok" THEN QueryFails(rec, run) ELSE {})
               \cup (IF run.s = "ok" /\ run.m = "vec" THEN Back(rec.ops, run.b, rec.e, 1, 0) ELSE {})
            : i \in 1..Len(rec.runs)}
     \cup If(E.s # "ok" \/ rec.need = Len(E.b), "counted")
==============================================================================
